S="sources/"
REFAC=[
dict(id="o_stack_candidate", props=["C01"], edits=[(S+"opartitioner.cpp","""    shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
    for (int i=size-1""","""    Tradeoff candidate;
    for (int i=size-1"""),(S+"opartitioner.cpp","""            tradeoff_t->set(qualities->operator()(i,cut_t), parameter);
            *tradeoff_t+=*(tradeoff[cut_t+1]);
            if (*tradeoff_t>*(tradeoff[i])){
                cut[i]=cut_t;
                *(tradeoff[i])=*(tradeoff_t);
            }""","""            candidate.set((*qualities)(i,cut_t), parameter);
            candidate+=*(tradeoff[cut_t+1]);
            if (candidate>*(tradeoff[i])){
                *(tradeoff[i])=candidate;
                cut[i]=cut_t;
            }""")]),
dict(id="h_vector_ctor", props=["C03","C04"], edits=[(S+"hpartitioner.cpp","""    vector<bool> aggregated;
    for (int h=0; h<hsize; h++){
        tradeoff.push_back(shared_ptr<Tradeoff>(new Tradeoff()));
        tradeoffChildren.push_back(shared_ptr<Tradeoff>(new Tradeoff()));
        aggregated.push_back(true);
    }""","""    vector<bool> aggregated(hsize, true);
    for (unsigned int h=0; h<hsize; ++h){
        tradeoff.push_back(make_shared<Tradeoff>());
        tradeoffChildren.push_back(make_shared<Tradeoff>());
    }""")]),
dict(id="d_cut_helper", props=["C05"], edits=[(S+"dpartitioner.cpp","""shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(float parameter)
{""","""static void findCut(lpaggreg::UpperTriangularMatrix<int> &cuts, lpaggreg::UpperTriangularMatrix<shared_ptr<lpaggreg::Tradeoff> > &tradeoff, int i, int j)
{
    for (int cut_t=i; cut_t<j; cut_t++){
        shared_ptr<lpaggreg::Tradeoff> tradeoff_t=shared_ptr<lpaggreg::Tradeoff>(new lpaggreg::Tradeoff());
        *tradeoff_t+=*(tradeoff(i, cut_t));
        *tradeoff_t+=*(tradeoff(cut_t+1, j));
        if (*tradeoff_t>*(tradeoff(i, j))){
            cuts(i, j, cut_t);
            *(tradeoff(i, j))=*tradeoff_t;
        }
    }
}

shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(float parameter)
{"""),(S+"dpartitioner.cpp","""                for (int cut_t=i; cut_t<j; cut_t++){
                    shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
                     *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
                     *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                    if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
                        (*(cuts[h]))(i, j, cut_t);
                        *((*(tradeoff[h]))(i, j))=*tradeoff_t;
                    }
                }
""","""                findCut(*(cuts[h]), *(tradeoff[h]), i, j);
""")]),
dict(id="d_leaf_flag", props=["C05","C06"], edits=[(S+"dpartitioner.cpp","""                if (k>=metaData.getLeaveSize()){
                    if (*((*(tradeoffChildren[h]))(i, j))>*((*(tradeoff[h]))(i, j))){
                        (*(cuts[h]))(i, j, -1);
                        *((*(tradeoff[h]))(i, j))=*((*(tradeoffChildren[h]))(i, j));
                    }
                }""","""                const bool inner=!(k<metaData.getLeaveSize());
                if (inner&&*((*(tradeoffChildren[h]))(i, j))>*((*(tradeoff[h]))(i, j))){
                    *((*(tradeoff[h]))(i, j))=*((*(tradeoffChildren[h]))(i, j));
                    (*(cuts[h]))(i, j, -1);
                }""")]),
dict(id="h_children_range", props=["C04"], edits=[(S+"hpartition.cpp","""        for (int i=0; i<metaData.getChildren().operator [](h).size(); i++){
            int child=metaData.getChildren().operator [](h).operator [](i);
            computeSubPart(child);
        }""","""        const vector<int> children=metaData.getChildren()[h];
        for (int child : children){
            computeSubPart(child);
        }""")]),
dict(id="d_children_return", props=["C06"], edits=[(S+"dpartition.cpp","""    if (cut==-1){
        for (int k=0; k<metaData.getChildren().operator [](h).size(); k++){
            int child=metaData.getChildren().operator [](h).operator [](k);
            computeSubPart(child, i, j);
        }
    }else if (cut<j){
        computeSubPart(h, i, cut);
        computeSubPart(h, cut+1, j);
    }else{
        parts""","""    if (cut!=-1&&cut<j){
        computeSubPart(h, i, cut);
        computeSubPart(h, cut+1, j);
        return;
    }
    if (cut==-1){
        vector<int> children=metaData.getChildren()[h];
        for (size_t k=0; k<children.size(); ++k){
            computeSubPart(children[k], i, j);
        }
    }else{
        parts""")]),
dict(id="oq_helper", props=["C07"], edits=[(S+"oqualities.cpp","""void lpaggreg::OQualities::computeQualities()
{""","""static void addContribution(shared_ptr<lpaggreg::Quality> quality, int cells, lp_quality_type sum, lp_quality_type info)
{
    quality->addToGain(entropyReduction(sum, info));
    quality->addToLoss(divergence(cells, sum, info));
}

void lpaggreg::OQualities::computeQualities()
{"""),(S+"oqualities.cpp","""                (*qualities)(i,j)->addToGain(entropyReduction(sum(i,j), info(i,j)));
                (*qualities)(i,j)->addToLoss(divergence(j-i+1, sum(i,j), info(i,j)));""","""                addContribution((*qualities)(i,j), j-i+1, sum(i,j), info(i,j));""")]),
dict(id="hq_helper", props=["C08"], edits=[(S+"hqualities.cpp","""void lpaggreg::HQualities::computeQualities()
{""","""static void addContribution(lpaggreg::Quality &quality, int leaves, lp_quality_type sum, lp_quality_type info)
{
    quality.addToGain(entropyReduction(sum, info));
    quality.addToLoss(divergence(leaves, sum, info));
}

void lpaggreg::HQualities::computeQualities()
{"""),(S+"hqualities.cpp","""            (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
            (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));
        }
        (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
        (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));""","""            addContribution(*(*qualities)[h], (metaData.getSize())[h], sum[h], info[h]);
        }
        addContribution(*(*qualities)[h], (metaData.getSize())[h], sum[h], info[h]);""")]),
dict(id="dq_helper", props=["C09"], edits=[(S+"dqualities.cpp","""void lpaggreg::DQualities::computeQualities()
{""","""static void addContribution(shared_ptr<lpaggreg::Quality> quality, int cells, lp_quality_type sum, lp_quality_type info)
{
    quality->addToLoss(divergence(cells, sum, info));
    quality->addToGain(entropyReduction(sum, info));
}

void lpaggreg::DQualities::computeQualities()
{"""),(S+"dqualities.cpp","""            for (int j = i; j < osize; j++) {
                (*(*qualities)[h])(i,j)->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
                (*(*qualities)[h])(i,j)->addToLoss(divergence((j-i+1)*(metaData.getSize())[h], (sum[h])(i,j), (info[h])(i,j)));
            }
        }
    }""","""            for (int j = i; j < osize; j++) {
                addContribution((*(*qualities)[h])(i,j), (j-i+1)*(metaData.getSize())[h], (sum[h])(i,j), (info[h])(i,j));
            }
        }
    }""")]),
dict(id="norm_helper", props=["C10"], edits=[(S+"oqualities.cpp","""void lpaggreg::OQualities::normalize()
{
    Quality max=*(*qualities)(0, qualities->getSize()-1);
    if (max.getGain()==0){
        max.setGain(1);
    }
    if (max.getLoss()==0){
        max.setLoss(1);
    }
""","""static lpaggreg::Quality divisor(lpaggreg::Quality &whole)
{
    return lpaggreg::Quality(whole.getGain()==0?1:whole.getGain(), whole.getLoss()==0?1:whole.getLoss());
}

void lpaggreg::OQualities::normalize()
{
    Quality max=divisor(*(*qualities)(0, qualities->getSize()-1));
""")]),
dict(id="dpeq_helper", props=["C12"], edits=[(S+"dpartition.cpp","""bool lpaggreg::operator==(lpaggreg::DPartition &dpartition1, lpaggreg::DPartition &dpartition2)
{
    if (dpartition1.getParts().size()!=dpartition2.getParts().size()){""","""static bool holds(vector<lpaggreg::DPart> &parts, lpaggreg::DPart &part)
{
    for (int j=0; j<parts.size(); j++){
        if (part==parts[j]){
            return true;
        }
    }
    return false;
}

bool lpaggreg::operator==(lpaggreg::DPartition &dpartition1, lpaggreg::DPartition &dpartition2)
{
    if (dpartition1.getParts().size()!=dpartition2.getParts().size()){"""),(S+"dpartition.cpp","""            bool similar=false;
            for (int j=0; j<dpartition2.getParts().size(); j++){
                if (part==(dpartition2.getParts())[j]){
                    similar=true;
                    break;
                }
            }
            if (!similar){
                return false;
            }""","""            vector<DPart> others=dpartition2.getParts();
            if (!holds(others, part)){
                return false;
            }""")]),
dict(id="h_path_while", props=["C11"], edits=[(S+"hvalues.cpp","""    for (int i=0; parents[path[i]]!=-1; i++){
        size[parents[path[i]]]+=size[path[i]];
        children[parents[path[i]]].push_back(path[i]);
        pending[parents[path[i]]]--;
        if (pending[parents[path[i]]]==0){
            path.push_back(parents[path[i]]);
        }
    }""","""    int i=0;
    while (parents[path[i]]!=-1){
        const int node=path[i];
        const int parent=parents[node];
        children[parent].push_back(node);
        size[parent]+=size[node];
        if (--pending[parent]==0){
            path.push_back(parent);
        }
        i++;
    }""")]),
dict(id="oagg_helper", props=["C17"], edits=[(S+"oaggregationn.cpp","""void lpaggreg::OAggregateN1::compute()
{
    sum=0;
    for (int o=part.getStart(); o<=part.getEnd();o++){
        sum+=(*values)(o);
    }
    mean=sum/part.getSize();""","""static double intervalSum(lpaggreg::OValuesN1 &values, int start, int end)
{
    double total=0;
    for (int o=start; o<=end; ++o){
        total+=values(o);
    }
    return total;
}

void lpaggreg::OAggregateN1::compute()
{
    sum=intervalSum(*values, part.getStart(), part.getEnd());
    mean=sum/part.getSize();""")]),
dict(id="hagg_iter", props=["C18"], edits=[(S+"haggregationn.cpp","""    double sum_t=0;
    vector<int> children=(values->getMetaData().getChildren())[h];
    for (int child: children){
        sum_t+=subSum(child);
    }
    return sum_t;
}

double lpaggreg::HAggregateN1::getMean() const""","""    double sum_t=0;
    vector<int> children=(values->getMetaData().getChildren())[h];
    for (auto it=children.begin(); it!=children.end(); ++it){
        sum_t+=subSum(*it);
    }
    return sum_t;
}

double lpaggreg::HAggregateN1::getMean() const""")]),
dict(id="popt_index", props=["C14"], edits=[(S+"partitioner.cpp","""    for (float p: pList){
        lp_quality_type gain=(qualityList[p])->getGain();
        lp_quality_type loss=(qualityList[p])->getLoss();
        lp_quality_type currentScore=(gain-1)*(gain-1)+loss*loss;""","""    for (unsigned int i=0; i<pList.size(); ++i){
        const float p=pList[i];
        const shared_ptr<Quality> quality=qualityList[p];
        const lp_quality_type away=1-quality->getGain();
        const lp_quality_type currentScore=away*away+quality->getLoss()*quality->getLoss();""")]),
dict(id="o_bisect_early", props=["C12","C13"], edits=[(S+"opartitioner.cpp","""    if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
        float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
            return;
        }
""","""    const float low=bestPartitionMin->getParameter();
    const float high=bestPartitionMax->getParameter();
    if (high-low>threshold&&*bestPartitionMin!=*bestPartitionMax){
        const float parameter=low+(high-low)/2;
        if (!(parameter>low&&parameter<high)){
            return;
        }
""")]),
dict(id="h_sweep_order", props=["C12","C13"], edits=[(S+"hpartitioner.cpp","""    pList.clear();
    partitions.clear();
    partitionsTuples.clear();
    qualityList.clear();
    shared_ptr<HPartition> bestPartitionMin;
    shared_ptr<HPartition> bestPartitionMax;
    bestPartitionMin=computeBestPartition(min);
    pList.push_back(min);""","""    shared_ptr<HPartition> bestPartitionMax;
    shared_ptr<HPartition> bestPartitionMin=computeBestPartition(min);
    qualityList.clear();
    partitionsTuples.clear();
    partitions.clear();
    pList.clear();
    pList.push_back(min);""")]),
dict(id="utm_offset", props=["C15"], edits=[(S+"uppertriangularmatrix.cpp","""    return matrix[(j-i)*size-(j-i)*((j-i)-1)/2+i];""","""    const unsigned int diagonal=j-i;
    const unsigned int offset=diagonal*size-diagonal*(diagonal-1)/2;
    return matrix[offset+i];""")]),
dict(id="utm_sized", props=["C15"], edits=[(S+"uppertriangularmatrix.cpp","""    matrix=vector<shared_ptr<lpaggreg::Quality > >();
    for (int i=0; i<elements; i++){
        matrix.push_back(shared_ptr<lpaggreg::Quality>(new Quality));
    }""","""    matrix=vector<shared_ptr<lpaggreg::Quality > >(elements);
    for (int i=0; i<elements; i++){
        matrix[i]=shared_ptr<lpaggreg::Quality>(new Quality());
    }""")]),
dict(id="quality_ops_local", props=["C19","C20"], edits=[(S+"quality.cpp","""lpaggreg::Quality lpaggreg::operator+(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
{
    return lpaggreg::Quality(quality1.getGain()+quality2.getGain(), quality1.getLoss()+quality2.getLoss());""","""lpaggreg::Quality lpaggreg::operator+(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
{
    lpaggreg::Quality sum=quality1;
    sum+=quality2;
    return sum;"""),(S+"quality.cpp","""    gain/=quality.getGain();
    loss/=quality.getLoss();""","""    const lp_quality_type gainDivisor=quality.getGain(), lossDivisor=quality.getLoss();
    gain=gain/gainDivisor;
    loss=loss/lossDivisor;""")]),
]
