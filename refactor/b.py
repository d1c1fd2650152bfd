S = "sources/"
REFAC = [
dict(id="h_lambda", props=["C03"], edits=[(S+"hpartitioner.cpp","""    int i=0;
    int h;
    for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize()""","""    auto settle = [&](int node){
        (tradeoff[node])->set((*qualities)[node], parameter);
        if ((*tradeoff[node])<(*tradeoffChildren[node])){
            aggregated[node]=false;
            (*tradeoff[node])=(*tradeoffChildren[node]);
        }
    };
    int i=0;
    int h;
    for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize()"""),
 (S+"hpartitioner.cpp","""        (tradeoff[h])->set((*qualities)[h], parameter);
        if ((*tradeoff[h])<(*tradeoffChildren[h])){
            aggregated[h]=false;
            (*tradeoff[h])=(*tradeoffChildren[h]);
        }
        (*tradeoffChildren""","""        settle(h);
        (*tradeoffChildren"""),
 (S+"hpartitioner.cpp","""    (tradeoff[h])->set((*qualities)[h], parameter);
    if ((*tradeoff[h])<(*tradeoffChildren[h])){
        aggregated[h]=false;
        (*tradeoff[h])=(*tradeoffChildren[h]);
    }
    shared""","""    settle(h);
    shared""")]),
dict(id="h_member_helper", props=["C03","C04"], edits=[("headers/hpartitioner.h","    private:\n","    private:\n        void settle(int h, float parameter, const vector<shared_ptr<Tradeoff> > &tradeoff, const vector<shared_ptr<Tradeoff> > &tradeoffChildren, vector<bool> &aggregated);\n"),
 (S+"hpartitioner.cpp","""shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(float parameter)
""","""void lpaggreg::HPartitioner::settle(int h, float parameter, const vector<shared_ptr<Tradeoff> > &tradeoff, const vector<shared_ptr<Tradeoff> > &tradeoffChildren, vector<bool> &aggregated)
{
    tradeoff[h]->set((*qualities)[h], parameter);
    if ((*tradeoff[h])<(*tradeoffChildren[h])){
        aggregated[h]=false;
        (*tradeoff[h])=(*tradeoffChildren[h]);
    }
}

shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(float parameter)
"""),
 (S+"hpartitioner.cpp","""        (tradeoff[h])->set((*qualities)[h], parameter);
        if ((*tradeoff[h])<(*tradeoffChildren[h])){
            aggregated[h]=false;
            (*tradeoff[h])=(*tradeoffChildren[h]);
        }
        (*tradeoffChildren""","""        settle(h, parameter, tradeoff, tradeoffChildren, aggregated);
        (*tradeoffChildren"""),
 (S+"hpartitioner.cpp","""    (tradeoff[h])->set((*qualities)[h], parameter);
    if ((*tradeoff[h])<(*tradeoffChildren[h])){
        aggregated[h]=false;
        (*tradeoff[h])=(*tradeoffChildren[h]);
    }
    shared""","""    settle(h, parameter, tradeoff, tradeoffChildren, aggregated);
    shared""")]),
dict(id="h_merge_loops", props=["C03"], edits=[(S+"hpartitioner.cpp","""    for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
        (tradeoff[h])->set((*qualities)[h], parameter);
        (*tradeoffChildren[(metaData.getParents())[h]])+=*(tradeoff[h]);
    }
    for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){""","""    for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
        (tradeoff[h])->set((*qualities)[h], parameter);
        Tradeoff &parent=*tradeoffChildren[(metaData.getParents())[h]];
        parent+=*(tradeoff[h]);
    }
    for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){""")]),
dict(id="o_down_while", props=["C01"], edits=[(S+"opartitioner.cpp","""        for (int cut_t=i; cut_t<size-1; cut_t++){
            tradeoff_t->set(qualities->operator()(i,cut_t), parameter);
            *tradeoff_t+=*(tradeoff[cut_t+1]);
            if (*tradeoff_t>*(tradeoff[i])){
                cut[i]=cut_t;
                *(tradeoff[i])=*(tradeoff_t);
            }
        }""","""        Tradeoff &best=*(tradeoff[i]);
        int cut_t=i;
        while (cut_t<size-1){
            tradeoff_t->set((*qualities)(i,cut_t), parameter);
            *tradeoff_t+=*(tradeoff[cut_t+1]);
            if (!(*tradeoff_t<=best)){
                cut[i]=cut_t;
                best=*(tradeoff_t);
            }
            ++cut_t;
        }""")]),
dict(id="o_bisect_static", props=["C13","C12"], edits=[(S+"opartitioner.cpp","""void lpaggreg::OPartitioner::addBestQualities(""","""namespace {
    float middle(float low, float high)
    {
        return low+(high-low)/2;
    }
}

void lpaggreg::OPartitioner::addBestQualities("""),(S+"opartitioner.cpp","""        float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
            return;
        }
        shared_ptr<OPartition> bestPartitionMid;
        bestPartitionMid=computeBestPartition(parameter);
""","""        const float parameter=middle(bestPartitionMin->getParameter(), bestPartitionMax->getParameter());
        const bool inside=parameter>bestPartitionMin->getParameter()&&parameter<bestPartitionMax->getParameter();
        if (!inside){
            return;
        }
        shared_ptr<OPartition> bestPartitionMid=computeBestPartition(parameter);
""")]),
dict(id="oparts_locals", props=["C02"], edits=[(S+"opartition.cpp","""    for (int i=0; i<cuts.size();i=cuts[i]+1){
        parts.push_back(OPart(i, cuts[i], qualities->operator ()(i,cuts[i])));
    }""","""    int start=0;
    while (start<(int)cuts.size()){
        const int end=cuts[start];
        parts.push_back(OPart(start, end, (*qualities)(start, end)));
        start=end+1;
    }""")]),
dict(id="oquality_iter", props=["C02"], edits=[(S+"opartition.cpp","""    for (OPart it: parts){
        *quality+=*(it.getQuality());
    }""","""    for (auto it=parts.begin(); it!=parts.end(); ++it){
        *quality+=*(it->getQuality());
    }""")]),
dict(id="hq_lambda", props=["C08"], edits=[(S+"hqualities.cpp","""        vector<lp_quality_type> info(hsize,0);
""","""        vector<lp_quality_type> info(hsize,0);
        const auto addQuality = [&](int node){
            (*qualities)[node]->addToGain(entropyReduction(sum[node], info[node]));
            (*qualities)[node]->addToLoss(divergence((metaData.getSize())[node],sum[node], info[node]));
        };
"""),(S+"hqualities.cpp","""            (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
            (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));
        }
        (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
        (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));
""","""            addQuality(h);
        }
        addQuality(h);
""")]),
dict(id="hq_for_plain", props=["C08"], edits=[(S+"hqualities.cpp","""        for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
            sum""","""        const vector<int> path=metaData.getPath();
        for (; i < metaData.getLeaveSize(); i++){
            h=path[i];
            sum"""),(S+"hqualities.cpp","""        for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){
            sum[(metaData.getParents())[h]]+=sum[h];
            info[(metaData.getParents())[h]]+=info[h];
            (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
            (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));
        }
""","""        for (; i < hsize-1; i++){
            h=path[i];
            sum[(metaData.getParents())[h]]+=sum[h];
            info[(metaData.getParents())[h]]+=info[h];
            (*qualities)[h]->addToGain(entropyReduction(sum[h], info[h]));
            (*qualities)[h]->addToLoss(divergence((metaData.getSize())[h],sum[h], info[h]));
        }
        h=path[i];
""")]),
dict(id="h_path_init", props=["C11"], edits=[(S+"hvalues.cpp","""    for (int h=0; h<leaveSize; h++){
        path.push_back(h);
        children.push_back(vector<int>());
        size[h]=1;
    }
    for (int h=leaveSize; h<hsize; h++){
        children.push_back(vector<int>());
    }
    vector<int> pending(hsize, 0);""","""    for (int h=0; h<hsize; h++){
        children.push_back(vector<int>());
    }
    for (int h=0; h<leaveSize; h++){
        path.push_back(h);
        size[h]=1;
    }
    vector<int> pending(hsize, 0);""")]),
dict(id="dq_normalize_range", props=["C10"], edits=[(S+"dqualities.cpp","""    for (int h = 0; h < metaData.getHsize(); h++){
        for (int i=0; i<((*qualities)[h])->getElements(); i++){
            *((*((*qualities)[h]))[i])/=max;
        }
    }""","""    for (unsigned int h = 0; h < metaData.getHsize(); h++){
        UpperTriangularMatrix<shared_ptr<lpaggreg::Quality> > &matrix=*((*qualities)[h]);
        const int elements=matrix.getElements();
        for (int i=0; i<elements; i++){
            *(matrix[i])/=max;
        }
    }""")]),
]
