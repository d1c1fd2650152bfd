"""behaviour-preserving edits: member helpers declared in the headers, overloads, helpers in base classes, library algorithms"""
S = "sources/"; H = "headers/"
REFAC = [
dict(id="h_member_propagate", props=["C08"], edits=[(H+"hqualities.h","""    private:
        shared_ptr<HValues> values;""","""    private:
        void propagate(int h, vector<lp_quality_type> &sum, vector<lp_quality_type> &info) const;
        shared_ptr<HValues> values;"""),
 (S+"hqualities.cpp","""void lpaggreg::HQualities::computeQualities()""","""void lpaggreg::HQualities::propagate(int h, vector<lp_quality_type> &sum, vector<lp_quality_type> &info) const
{
    int parent=metaData.getParents()[h];
    sum[parent]+=sum[h];
    info[parent]+=info[h];
}

void lpaggreg::HQualities::computeQualities()"""),
 (S+"hqualities.cpp","""            sum[h] = (*values)[h][k];
            sum[(metaData.getParents())[h]]+=sum[h];
            info[h] = entropyReduction(sum[h], 0);
            info[(metaData.getParents())[h]]+=info[h];""","""            sum[h] = (*values)[h][k];
            info[h] = entropyReduction(sum[h], 0);
            propagate(h, sum, info);"""),
 (S+"hqualities.cpp","""            sum[(metaData.getParents())[h]]+=sum[h];
            info[(metaData.getParents())[h]]+=info[h];
            (*qualities)[h]->addToGain""","""            propagate(h, sum, info);
            (*qualities)[h]->addToGain""")]),
dict(id="h_member_quality", props=["C08"], edits=[(H+"hqualities.h","""    private:
        shared_ptr<HValues> values;""","""    private:
        void addQuality(int h, lp_quality_type sum, lp_quality_type info);
        shared_ptr<HValues> values;"""),
 (S+"hqualities.cpp","""void lpaggreg::HQualities::computeQualities()""","""void lpaggreg::HQualities::addQuality(int h, lp_quality_type sum, lp_quality_type info)
{
    shared_ptr<Quality> quality=(*qualities)[h];
    quality->addToGain(entropyReduction(sum, info));
    quality->addToLoss(divergence((metaData.getSize())[h], sum, info));
}

void lpaggreg::HQualities::computeQualities()"""),
 (S+"hqualities.cpp","""            (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
            (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));
        }
        (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
        (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));""","""            addQuality(h, sum[h], info[h]);
        }
        addQuality(h, sum[h], info[h]);""")]),
dict(id="h_member_choose", props=["C03","C04"], edits=[(H+"hpartitioner.h","""    private:
        void addBest""","""    private:
        static void chooseBest(int h, vector<shared_ptr<Tradeoff> > &tradeoff, const vector<shared_ptr<Tradeoff> > &children, vector<bool> &aggregated);
        void addBest"""),
 (S+"hpartitioner.cpp","""shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(float parameter)
{""","""void lpaggreg::HPartitioner::chooseBest(int h, vector<shared_ptr<Tradeoff> > &tradeoff, const vector<shared_ptr<Tradeoff> > &children, vector<bool> &aggregated)
{
    if ((*tradeoff[h])<(*children[h])){
        aggregated[h]=false;
        (*tradeoff[h])=(*children[h]);
    }
}

shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(float parameter)
{"""),
 (S+"hpartitioner.cpp","""        if ((*tradeoff[h])<(*tradeoffChildren[h])){
            aggregated[h]=false;
            (*tradeoff[h])=(*tradeoffChildren[h]);
        }
        (*tradeoffChildren""","""        chooseBest(h, tradeoff, tradeoffChildren, aggregated);
        (*tradeoffChildren"""),
 (S+"hpartitioner.cpp","""    if ((*tradeoff[h])<(*tradeoffChildren[h])){
        aggregated[h]=false;
        (*tradeoff[h])=(*tradeoffChildren[h]);
    }
    shared_ptr<HPartition> partition=""","""    chooseBest(h, tradeoff, tradeoffChildren, aggregated);
    shared_ptr<HPartition> partition=""")]),
dict(id="o_member_simplify", props=["C12"], edits=[(H+"opartitioner.h","""    private:
        void addBest""","""    private:
        void removeDuplicates();
        void fillTuples();
        void addBest"""),
 (S+"opartitioner.cpp","""void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, float max)
{""","""void lpaggreg::OPartitioner::removeDuplicates()
{
    for (auto it = pList.end()-1; it!=pList.begin();it--){
        auto it2=it-1;
        if (*(partitions[*it])==*(partitions[*it2])){
            partitions.erase(partitions.find(*it));
            pList.erase(it);
        }
    }
}

void lpaggreg::OPartitioner::fillTuples()
{
    for (auto it : partitions){
        for (auto it2 : it.second->getParts()){
            tuple<float, int, int, lp_quality_type, lp_quality_type> t(it.first, it2.getStart(), it2.getEnd(), it2.getQuality()->getGain(), it2.getQuality()->getLoss());
            partitionsTuples.push_back(t);
        }
        qualityList[it.first]=it.second->getQuality();
    }
}

void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, float max)
{"""),
 (S+"opartitioner.cpp","""        partitions[max]=bestPartitionMax;
    }
    for (auto it = pList.end()-1; it!=pList.begin();it--){
        auto it2=it-1;
        if (*(partitions[*it])==*(partitions[*it2])){
            partitions.erase(partitions.find(*it));
            pList.erase(it);
        }
    }
    for (auto it : partitions){
        for (auto it2 : it.second->getParts()){
            tuple<float, int, int, lp_quality_type, lp_quality_type> t(it.first, it2.getStart(), it2.getEnd(), it2.getQuality()->getGain(), it2.getQuality()->getLoss());
            partitionsTuples.push_back(t);
        }
        qualityList[it.first]=it.second->getQuality();
    }
""","""        partitions[max]=bestPartitionMax;
    }
    removeDuplicates();
    fillTuples();
""")]),
dict(id="h_member_clear", props=["C12"], edits=[(H+"hpartitioner.h","""    private:
        void addBest""","""    private:
        void reset();
        void addPartition(float parameter, shared_ptr<HPartition> partition);
        void addBest"""),
 (S+"hpartitioner.cpp","""void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, float max)
{
    pList.clear();
    partitions.clear();
    partitionsTuples.clear();
    qualityList.clear();
""","""void lpaggreg::HPartitioner::reset()
{
    pList.clear();
    partitions.clear();
    partitionsTuples.clear();
    qualityList.clear();
}

void lpaggreg::HPartitioner::addPartition(float parameter, shared_ptr<HPartition> partition)
{
    pList.push_back(parameter);
    partitions[parameter]=partition;
}

void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, float max)
{
    reset();
"""),
 (S+"hpartitioner.cpp","""    pList.push_back(min);
    partitions[min]=bestPartitionMin;""","""    addPartition(min, bestPartitionMin);"""),
 (S+"hpartitioner.cpp","""        pList.push_back(max);
        partitions[max]=bestPartitionMax;""","""        addPartition(max, bestPartitionMax);"""),
 (S+"hpartitioner.cpp","""        pList.push_back(parameter);
        partitions[parameter]=bestPartitionMid;""","""        addPartition(parameter, bestPartitionMid);""")]),
dict(id="d_member_middle", props=["C12","C13"], edits=[(H+"dpartitioner.h","""    private:
""","""    private:
        static float middle(float low, float high);
"""),
 (S+"dpartitioner.cpp","""void lpaggreg::DPartitioner::addBestQualities(""","""float lpaggreg::DPartitioner::middle(float low, float high)
{
    return low+(high-low)/2;
}

void lpaggreg::DPartitioner::addBestQualities("""),
 (S+"dpartitioner.cpp","""        float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
            return;
        }""","""        const float low=bestPartitionMin->getParameter();
        const float high=bestPartitionMax->getParameter();
        const float parameter=middle(low, high);
        if (!(parameter>low&&parameter<high)){
            return;
        }""")]),
dict(id="d_member_addpart", props=["C06"], edits=[(H+"dpartition.h","""        void computeSubPart(int h, int i, int j);""","""        void computeSubPart(int h, int i, int j);
        void addPart(int h, int i, int j);
        void splitNode(int h, int i, int j);"""),
 (S+"dpartition.cpp","""void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
    int cut=(*(cuts[h]))(i, j);
    if (cut==-1){
        for (int k=0; k<metaData.getChildren().operator [](h).size(); k++){
            int child=metaData.getChildren().operator [](h).operator [](k);
            computeSubPart(child, i, j);
        }
    }else if""","""void lpaggreg::DPartition::addPart(int h, int i, int j)
{
    parts.push_back(DPart(h, (metaData.getSize())[h], i, j, (*(*qualities)[h])(i, j)));
}

void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
    int cut=(*(cuts[h]))(i, j);
    if (cut==-1){
        for (int k=0; k<metaData.getChildren().operator [](h).size(); k++){
            int child=metaData.getChildren().operator [](h).operator [](k);
            computeSubPart(child, i, j);
        }
    }else if"""),
 (S+"dpartition.cpp","""        parts.push_back(DPart(h, (metaData.getSize())[h], i, j, (*(*qualities)[h])(i, j)));
    }
}

""","""        addPart(h, i, j);
    }
}

"""),(H+"dpartition.h","""        void splitNode(int h, int i, int j);""","")]),
dict(id="partition_base_quality", props=["C02","C04"], edits=[(H+"partition.h","""    protected:
""","""    protected:
        template<typename P> void sumQuality(const vector<P> &parts);
"""),(H+"partition.h","""    };
}
""","""    };

    template<typename P> void Partition::sumQuality(const vector<P> &parts)
    {
        quality=shared_ptr<Quality>(new Quality());
        for (const P &part: parts){
            *quality+=*(part.getQuality());
        }
    }
}
"""),(S+"opartition.cpp","""    quality=shared_ptr<Quality>(new Quality());
    for (OPart it: parts){
        *quality+=*(it.getQuality());
    }""","""    sumQuality(parts);"""),(S+"hpartition.cpp","""    quality=shared_ptr<Quality>(new Quality());
    for (HPart it: parts){
        *quality+=*(it.getQuality());
    }""","""    sumQuality(parts);""")]),
dict(id="tradeoff_copy_helper", props=["C20"], edits=[(H+"tradeoff.h","""        void computePIC(float p);""","""        void computePIC(float p);
        static shared_ptr<Quality> copyOf(shared_ptr<Quality> quality){return shared_ptr<Quality>(new Quality(quality->getGain(), quality->getLoss()));}"""),
 (S+"tradeoff.cpp","""void lpaggreg::Tradeoff::set(shared_ptr<lpaggreg::Quality> quality, float p)
{
    this->quality=shared_ptr<Quality>(new Quality(quality->getGain(), quality->getLoss()));""","""void lpaggreg::Tradeoff::set(shared_ptr<lpaggreg::Quality> quality, float p)
{
    this->quality=copyOf(quality);"""),
 (S+"tradeoff.cpp","""lpaggreg::Tradeoff::Tradeoff(shared_ptr<lpaggreg::Quality> quality,float p)
{
    this->quality=shared_ptr<Quality>(new Quality(quality->getGain(), quality->getLoss()));""","""lpaggreg::Tradeoff::Tradeoff(shared_ptr<lpaggreg::Quality> quality,float p):quality(copyOf(quality))
{""")]),
dict(id="utm_index_helper", props=["C15"], edits=[(H+"uppertriangularmatrix.h","""        int elements;
    public:""","""        int elements;
        unsigned int position(unsigned int i, unsigned int j) const;
    public:""")]),
dict(id="h_member_leaves", props=["C11"], edits=[(H+"hvalues.h","""    private:
        unsigned int hsize;""","""    private:
        void addLeaves();
        vector<int> countChildren() const;
        unsigned int hsize;"""),
 (S+"hvalues.cpp","""void lpaggreg::HValuesMetaData::setPath()
{
    for (int h=0; h<leaveSize; h++){
        path.push_back(h);
        children.push_back(vector<int>());
        size[h]=1;
    }
""","""void lpaggreg::HValuesMetaData::addLeaves()
{
    for (int h=0; h<leaveSize; h++){
        path.push_back(h);
        children.push_back(vector<int>());
        size[h]=1;
    }
}

vector<int> lpaggreg::HValuesMetaData::countChildren() const
{
    vector<int> count(hsize, 0);
    for (int h=0; h<hsize; h++){
        if (parents[h]!=-1){
            count[parents[h]]++;
        }
    }
    return count;
}

void lpaggreg::HValuesMetaData::setPath()
{
    addLeaves();
"""),
 (S+"hvalues.cpp","""    vector<int> pending(hsize, 0);
    for (int h=0; h<hsize; h++){
        if (parents[h]!=-1){
            pending[parents[h]]++;
        }
    }
    for (int i=0;""","""    vector<int> pending=countChildren();
    for (int i=0;""")]),
dict(id="hagg_member_mean", props=["C18"], edits=[(H+"haggregationn.h","""    private:
        void compute();
        double subSum(int h);""","""    private:
        void compute();
        bool isLeaf(int h) const {return h<values->getMetaData().getLeaveSize();}
        double subSum(int h);"""),(S+"haggregationn.cpp","""    if (h<values->getMetaData().getLeaveSize()){
        return (*values)(h);
    }""","""    if (isLeaf(h)){
        return (*values)(h);
    }""")]),
dict(id="norm_member_max", props=["C10"], edits=[(H+"oqualities.h","""    private:
        shared_ptr<OValues> values;""","""    private:
        Quality getNormalizer() const;
        shared_ptr<OValues> values;"""),(S+"oqualities.cpp","""void lpaggreg::OQualities::normalize()
{
    Quality max=*(*qualities)(0, qualities->getSize()-1);
    if (max.getGain()==0){
        max.setGain(1);
    }
    if (max.getLoss()==0){
        max.setLoss(1);
    }
""","""lpaggreg::Quality lpaggreg::OQualities::getNormalizer() const
{
    shared_ptr<Quality> whole=(*qualities)(0, qualities->getSize()-1);
    return Quality(whole->getGain()==0?1:whole->getGain(), whole->getLoss()==0?1:whole->getLoss());
}

void lpaggreg::OQualities::normalize()
{
    Quality max=getNormalizer();
""")]),
dict(id="dq_member_add", props=["C09"], edits=[(H+"dqualities.h","""    private:
        shared_ptr<DValues> values;""","""    private:
        void addQuality(int h, int i, int j, int cells, UpperTriangularMatrix<lp_quality_type> &sum, UpperTriangularMatrix<lp_quality_type> &info);
        shared_ptr<DValues> values;"""),(S+"dqualities.cpp","""void lpaggreg::DQualities::computeQualities()
{""","""void lpaggreg::DQualities::addQuality(int h, int i, int j, int cells, UpperTriangularMatrix<lp_quality_type> &sum, UpperTriangularMatrix<lp_quality_type> &info)
{
    shared_ptr<Quality> quality=(*(*qualities)[h])(i, j);
    quality->addToGain(entropyReduction(sum(i, j), info(i, j)));
    quality->addToLoss(divergence(cells, sum(i, j), info(i, j)));
}

void lpaggreg::DQualities::computeQualities()
{"""),(S+"dqualities.cpp","""                    (*(*qualities)[h])(i,j)->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
                    (*(*qualities)[h])(i,j)->addToLoss(divergence(j-i+1, (sum[h])(i,j), (info[h])(i,j)));""","""                    addQuality(h, i, j, j-i+1, sum[h], info[h]);"""),
 (S+"dqualities.cpp","""                (*(*qualities)[h])(i,j)->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
                (*(*qualities)[h])(i,j)->addToLoss(divergence((j-i+1)*(metaData.getSize())[h], (sum[h])(i,j), (info[h])(i,j)));
            }
        }
    }
}""","""                addQuality(h, i, j, (j-i+1)*(metaData.getSize())[h], sum[h], info[h]);
            }
        }
    }
}""")]),
dict(id="popt_score_member", props=["C14"], edits=[(H+"partitioner.h","""        float computePOpt();
""","""        float computePOpt();
        lp_quality_type score(float p) const;
"""),(S+"partitioner.cpp","""float lpaggreg::Partitioner::computePOpt()
{""","""lp_quality_type lpaggreg::Partitioner::score(float p) const
{
    shared_ptr<Quality> quality=qualityList.at(p);
    lp_quality_type gain=quality->getGain()-1;
    lp_quality_type loss=quality->getLoss();
    return gain*gain+loss*loss;
}

float lpaggreg::Partitioner::computePOpt()
{"""),(S+"partitioner.cpp","""    lp_quality_type score=0;
    bool found=false;
    for (float p: pList){
        lp_quality_type gain=(qualityList[p])->getGain();
        lp_quality_type loss=(qualityList[p])->getLoss();
        lp_quality_type currentScore=(gain-1)*(gain-1)+loss*loss;
        if (!found||currentScore<=score){
            found=true;
            score=currentScore;""","""    lp_quality_type best=0;
    bool found=false;
    for (float p: pList){
        lp_quality_type current=score(p);
        if (!found||current<=best){
            found=true;
            best=current;""")]),
dict(id="o_member_try", props=["C01","C22"], edits=[(H+"opartitioner.h","""    private:
        void addBest""","""    private:
        void bestCut(int i, float parameter, vector<int> &cut, vector<shared_ptr<Tradeoff> > &tradeoff) const;
        void addBest"""),(S+"opartitioner.cpp","""shared_ptr<lpaggreg::OPartition> lpaggreg::OPartitioner::computeBestPartition(float parameter)
{""","""void lpaggreg::OPartitioner::bestCut(int i, float parameter, vector<int> &cut, vector<shared_ptr<Tradeoff> > &tradeoff) const
{
    int size=qualities->getSize();
    (tradeoff[i])->set(qualities->operator()(i,size-1), parameter);
    for (int cut_t=i; cut_t<size-1; cut_t++){
        Tradeoff candidate(qualities->operator()(i,cut_t), parameter);
        candidate+=*(tradeoff[cut_t+1]);
        if (candidate>*(tradeoff[i])){
            cut[i]=cut_t;
            *(tradeoff[i])=candidate;
        }
    }
}

shared_ptr<lpaggreg::OPartition> lpaggreg::OPartitioner::computeBestPartition(float parameter)
{"""),(S+"opartitioner.cpp","""    shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
    for (int i=size-1;i>=0;i--){
        (tradeoff[i])->set(qualities->operator()(i,size-1), parameter);
        for (int cut_t=i; cut_t<size-1; cut_t++){
            tradeoff_t->set(qualities->operator()(i,cut_t), parameter);
            *tradeoff_t+=*(tradeoff[cut_t+1]);
            if (*tradeoff_t>*(tradeoff[i])){
                cut[i]=cut_t;
                *(tradeoff[i])=*(tradeoff_t);
            }
        }
    }""","""    for (int i=size-1;i>=0;i--){
        bestCut(i, parameter, cut, tradeoff);
    }""")]),
dict(id="oagg_accumulate", props=["C17"], edits=[(S+"oaggregationn.cpp","""    for (int o=part.getStart(); o<=part.getEnd();o++){
        sum+=(*values)(o);
    }
    mean=sum/part.getSize();""","""    int o=part.getStart();
    const int last=part.getEnd();
    while (o<=last){
        sum=sum+(*values)(o++);
    }
    mean=sum/static_cast<double>(part.getSize());""")]),
]
REFAC = [r for r in REFAC if r["id"] != "utm_index_helper"]
