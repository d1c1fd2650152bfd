S="sources/"
REFAC=[
dict(id="o_while_hoist", props=["C01","C02"], edits=[(S+"opartitioner.cpp","""    for (int i=size-1;i>=0;i--){
        (tradeoff[i])->set(qualities->operator()(i,size-1), parameter);
        for (int cut_t=i; cut_t<size-1; cut_t++){""","""    const int last=size-1;
    for (int i=last;i>=0;--i){
        (tradeoff[i])->set((*qualities)(i,last), parameter);
        for (int cut_t=i; cut_t<last; ++cut_t){""")]),
dict(id="o_helper", props=["C01"], edits=[(S+"opartitioner.cpp","""shared_ptr<lpaggreg::OPartition> lpaggreg::OPartitioner::computeBestPartition(float parameter)
{""","""static void improve(vector<int> &cut, vector<shared_ptr<lpaggreg::Tradeoff> > &tradeoff, int i, int cut_t, lpaggreg::Tradeoff &candidate)
{
    if (candidate>*(tradeoff[i])){
        cut[i]=cut_t;
        *(tradeoff[i])=candidate;
    }
}

shared_ptr<lpaggreg::OPartition> lpaggreg::OPartitioner::computeBestPartition(float parameter)
{"""),(S+"opartitioner.cpp","""            if (*tradeoff_t>*(tradeoff[i])){
                cut[i]=cut_t;
                *(tradeoff[i])=*(tradeoff_t);
            }""","""            improve(cut, tradeoff, i, cut_t, *tradeoff_t);""")]),
dict(id="o_parts_while", props=["C02","C01"], edits=[(S+"opartition.cpp","""    for (int i=0; i<cuts.size();i=cuts[i]+1){
        parts.push_back(OPart(i, cuts[i], qualities->operator ()(i,cuts[i])));
    }""","""    int start=0;
    const int size=cuts.size();
    while (start<size){
        const int end=cuts[start];
        OPart part(start, end, (*qualities)(start, end));
        parts.push_back(part);
        start=end+1;
    }""")]),
dict(id="o_quality_index", props=["C02","C01"], edits=[(S+"opartition.cpp","""    for (OPart it: parts){
        *quality+=*(it.getQuality());
    }""","""    for (unsigned int i=0; i<parts.size(); i++){
        *quality+=*(parts[i].getQuality());
    }""")]),
dict(id="h_hoist", props=["C03","C04"], edits=[(S+"hpartitioner.cpp","""    int i=0;
    int h;
    for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
        (tradeoff[h])->set((*qualities)[h], parameter);
        (*tradeoffChildren[(metaData.getParents())[h]])+=*(tradeoff[h]);
    }
    for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){
        (tradeoff[h])->set((*qualities)[h], parameter);
        if ((*tradeoff[h])<(*tradeoffChildren[h])){
            aggregated[h]=false;
            (*tradeoff[h])=(*tradeoffChildren[h]);
        }
        (*tradeoffChildren[(metaData.getParents())[h]])+=*(tradeoff[h]);
    }""","""    const vector<int> path=metaData.getPath();
    const vector<int> parents=metaData.getParents();
    int i=0;
    int h;
    for (h = path[i]; i < metaData.getLeaveSize(); h = path[++i]){
        (tradeoff[h])->set((*qualities)[h], parameter);
        (*tradeoffChildren[parents[h]])+=*(tradeoff[h]);
    }
    for (h = path[i]; i < hsize-1; h = path[++i]){
        (tradeoff[h])->set((*qualities)[h], parameter);
        if ((*tradeoff[h])<(*tradeoffChildren[h])){
            aggregated[h]=false;
            (*tradeoff[h])=(*tradeoffChildren[h]);
        }
        (*tradeoffChildren[parents[h]])+=*(tradeoff[h]);
    }""")]),
dict(id="h_for_plain", props=["C03"], edits=[(S+"hpartitioner.cpp","""    for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
        (tradeoff[h])->set((*qualities)[h], parameter);
        (*tradeoffChildren[(metaData.getParents())[h]])+=*(tradeoff[h]);
    }""","""    for (; i < metaData.getLeaveSize(); i++){
        h=(metaData.getPath())[i];
        (tradeoff[h])->set((*qualities)[h], parameter);
        (*tradeoffChildren[(metaData.getParents())[h]])+=*(tradeoff[h]);
    }""")]),
dict(id="d_locals", props=["C05","C06"], edits=[(S+"dpartitioner.cpp","""                    shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
                     *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
                     *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                    if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
                        (*(cuts[h]))(i, j, cut_t);
                        *((*(tradeoff[h]))(i, j))=*tradeoff_t;
                    }""","""                    Tradeoff candidate;
                    candidate+=*((*(tradeoff[h]))(i, cut_t));
                    candidate+=*((*(tradeoff[h]))(cut_t+1, j));
                    if (candidate>*((*(tradeoff[h]))(i, j))){
                        (*(cuts[h]))(i, j, cut_t);
                        *((*(tradeoff[h]))(i, j))=candidate;
                    }""")]),
dict(id="d_parts_reorder", props=["C06","C05"], edits=[(S+"dpartition.cpp","""    if (cut==-1){
        for (int k=0; k<metaData.getChildren().operator [](h).size(); k++){
            int child=metaData.getChildren().operator [](h).operator [](k);
            computeSubPart(child, i, j);
        }
    }else if (cut<j){
        computeSubPart(h, i, cut);
        computeSubPart(h, cut+1, j);
    }else{
        parts.push_back(DPart(h, (metaData.getSize())[h], i, j, (*(*qualities)[h])(i, j)));
    }""","""    if (cut>=j){
        parts.push_back(DPart(h, (metaData.getSize())[h], i, j, (*(*qualities)[h])(i, j)));
    }else if (cut!=-1){
        computeSubPart(h, i, cut);
        computeSubPart(h, cut+1, j);
    }else{
        vector<vector<int> > children=metaData.getChildren();
        for (int child : children[h]){
            computeSubPart(child, i, j);
        }
    }""")]),
dict(id="d_osize_late", props=["C05"], edits=[(S+"dpartitioner.cpp","for (int i=osize-1;i>=0;i--){\n            for (int j=i; j<=osize-1; j++){","for (int i=osize-1;i>=0;i--){\n            for (int j=i; j<osize; j++){")]),
dict(id="o_sweep_refs", props=["C12","C13"], edits=[(S+"opartitioner.cpp","""    for (auto it : partitions){
        for (auto it2 : it.second->getParts()){
            tuple<float, int, int, lp_quality_type, lp_quality_type> t(it.first, it2.getStart(), it2.getEnd(), it2.getQuality()->getGain(), it2.getQuality()->getLoss());
            partitionsTuples.push_back(t);
        }
        qualityList[it.first]=it.second->getQuality();
    }""","""    for (const auto &entry : partitions){
        qualityList[entry.first]=entry.second->getQuality();
        for (const auto &part : entry.second->getParts()){
            tuple<float, int, int, lp_quality_type, lp_quality_type> t(entry.first, part.getStart(), part.getEnd(), part.getQuality()->getGain(), part.getQuality()->getLoss());
            partitionsTuples.push_back(t);
        }
    }""")]),
dict(id="h_sweep_clear_helper", props=["C12"], edits=[(S+"hpartitioner.cpp","""    for (auto it = pList.end()-1; it!=pList.begin();it--){
        auto it2=it-1;
        if (*(partitions[*it])==*(partitions[*it2])){
            partitions.erase(partitions.find(*it));
            pList.erase(it);
        }
    }""","""    for (int i = (int)pList.size()-1; i>0; i--){
        if (*(partitions[pList[i]])==*(partitions[pList[i-1]])){
            partitions.erase(pList[i]);
            pList.erase(pList.begin()+i);
        }
    }""")]),
dict(id="d_bisect_early", props=["C12","C13"], edits=[(S+"dpartitioner.cpp","""    if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
        float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
            return;
        }
        shared_ptr<DPartition> bestPartitionMid;
        bestPartitionMid=computeBestPartition(parameter);
        addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
        pList.push_back(parameter);
        partitions[parameter]=bestPartitionMid;
        addBestQualities(threshold, bestPartitionMid, bestPartitionMax);
    }""","""    if (*bestPartitionMin==*bestPartitionMax){
        return;
    }
    const float low=bestPartitionMin->getParameter();
    const float high=bestPartitionMax->getParameter();
    if (!(high-low>threshold)){
        return;
    }
    float parameter=low+(high-low)/2;
    if (parameter<=low||parameter>=high){
        return;
    }
    shared_ptr<DPartition> bestPartitionMid=computeBestPartition(parameter);
    addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
    pList.push_back(parameter);
    partitions[parameter]=bestPartitionMid;
    addBestQualities(threshold, bestPartitionMid, bestPartitionMax);""")]),
dict(id="oq_locals", props=["C07"], edits=[(S+"oqualities.cpp","""                (*qualities)(i,j)->addToGain(entropyReduction(sum(i,j), info(i,j)));
                (*qualities)(i,j)->addToLoss(divergence(j-i+1, sum(i,j), info(i,j)));""","""                const lp_quality_type s=sum(i,j);
                const lp_quality_type e=info(i,j);
                shared_ptr<Quality> quality=(*qualities)(i,j);
                quality->addToLoss(divergence(j-i+1, s, e));
                quality->addToGain(entropyReduction(s, e));""")]),
dict(id="hq_parent_local", props=["C08"], edits=[(S+"hqualities.cpp","""            sum[h] = (*values)[h][k];
            sum[(metaData.getParents())[h]]+=sum[h];
            info[h] = entropyReduction(sum[h], 0);
            info[(metaData.getParents())[h]]+=info[h];""","""            const int parent=(metaData.getParents())[h];
            sum[h] = (*values)[h][k];
            info[h] = entropyReduction(sum[h], 0);
            sum[parent]+=sum[h];
            info[parent]+=info[h];""")]),
dict(id="hq_normalize_index", props=["C10"], edits=[(S+"hqualities.cpp","    for (auto quality : *qualities){\n        *quality/=max;","    for (unsigned int h=0; h<qualities->size(); h++){\n        *(*qualities)[h]/=max;")]),
dict(id="dq_ref", props=["C09"], edits=[(S+"dqualities.cpp","""            for (int j = i; j < osize; j++) {
                (*(*qualities)[h])(i,j)->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
                (*(*qualities)[h])(i,j)->addToLoss(divergence((j-i+1)*(metaData.getSize())[h], (sum[h])(i,j), (info[h])(i,j)));
            }""","""            for (int j = i; j < osize; j++) {
                shared_ptr<Quality> quality=(*(*qualities)[h])(i,j);
                const int cells=(j-i+1)*(metaData.getSize())[h];
                quality->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
                quality->addToLoss(divergence(cells, (sum[h])(i,j), (info[h])(i,j)));
            }""")]),
dict(id="h_path_local", props=["C11"], edits=[(S+"hvalues.cpp","""        size[parents[path[i]]]+=size[path[i]];
        children[parents[path[i]]].push_back(path[i]);
        pending[parents[path[i]]]--;
        if (pending[parents[path[i]]]==0){
            path.push_back(parents[path[i]]);
        }""","""        const int node=path[i];
        const int parent=parents[node];
        children[parent].push_back(node);
        size[parent]+=size[node];
        if (--pending[parent]==0){
            path.push_back(parent);
        }""")]),
dict(id="h_path_back", props=["C11"], edits=[(S+"hvalues.cpp","root=path[path.size()-1];","root=path.back();")]),
dict(id="entropy_early", props=["C07","C08","C21"], edits=[(S+"complexity.cpp","""	if (val> 0)
		return entropy(val) - ent;
	else
		return 0;""","""	if (val <= 0) {
		return 0;
	}
	return entropy(val) - ent;""")]),
dict(id="oagg_acc", props=["C17"], edits=[(S+"oaggregationn.cpp","""        sum.push_back(0);
        mean.push_back(0);
        for (int o=part.getStart(); o<=part.getEnd();o++){
            sum[i]+=(*values)(i, o);
        }
        mean[i]=sum[i]/part.getSize();""","""        double total=0;
        for (int o=part.getStart(); o<part.getEnd()+1; ++o){
            total+=(*values)(i, o);
        }
        sum.push_back(total);
        mean.push_back(total/part.getSize());""")]),
dict(id="hagg_leaf_else", props=["C18"], edits=[(S+"haggregationn.cpp","""    if (h<values->getMetaData().getLeaveSize()){
        return (*values)(h, i);
    }
    double sum_t=0;
    vector<int> children=(values->getMetaData().getChildren())[h];
    for (int child: children){
        sum_t+=subSum(child, i);
    }
    return sum_t;""","""    double total=0;
    if (h<values->getMetaData().getLeaveSize()){
        total=(*values)(h, i);
    }else{
        vector<int> children=(values->getMetaData().getChildren())[h];
        for (unsigned int k=0; k<children.size(); k++){
            total+=subSum(children[k], i);
        }
    }
    return total;""")]),
dict(id="auc_locals", props=["C14"], edits=[(S+"partitioner.cpp","""    for (int i=0; i<pList.size()-1; i++){
        auc+=((qualityList[pList[i+1]])->getGain()-(qualityList[pList[i]])->getGain())*((qualityList[pList[i+1]])->getLoss()+(qualityList[pList[i]])->getLoss())/2;
    }""","""    for (int i=0; i<pList.size()-1; i++){
        shared_ptr<Quality> left=qualityList[pList[i]];
        shared_ptr<Quality> right=qualityList[pList[i+1]];
        auc+=(right->getGain()-left->getGain())*(right->getLoss()+left->getLoss())/2;
    }""")]),
dict(id="getp_if", props=["C14"], edits=[(S+"partitioner.cpp","""    switch(strategy){
    case P_MIN:
        return 0;
    case P_MAX:
        return pList[pList.size()-1];
    case P_OPT:
        return computePOpt();
    }
    return 0;""","""    if (strategy==P_MAX){
        return pList.back();
    }
    if (strategy==P_OPT){
        return computePOpt();
    }
    return 0;""")]),
dict(id="quality_eq_locals", props=["C19"], edits=[(S+"quality.cpp","""    return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||
            ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&
            (std::abs(quality1.getLoss()-quality2.getLoss())<precision));""","""    if (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss()){
        return true;
    }
    const lp_quality_type dg=std::abs(quality1.getGain()-quality2.getGain());
    const lp_quality_type dl=std::abs(quality1.getLoss()-quality2.getLoss());
    return dg<precision&&dl<precision;""")]),
dict(id="tradeoff_gt_cascade", props=["C20"], edits=[(S+"tradeoff.cpp","""    return (tradeoff1.getValue()>tradeoff2.getValue()||(tradeoff1.getValue()==tradeoff2.getValue())&&
            (tradeoff1.getQuality()->getGain()>tradeoff2.getQuality()->getGain()||
            (tradeoff1.getQuality()->getGain()==tradeoff2.getQuality()->getGain()&&
             tradeoff1.getQuality()->getLoss()<tradeoff2.getQuality()->getLoss())));""","""    if (tradeoff1.getValue()!=tradeoff2.getValue()){
        return tradeoff1.getValue()>tradeoff2.getValue();
    }
    if (tradeoff1.getQuality()->getGain()!=tradeoff2.getQuality()->getGain()){
        return tradeoff1.getQuality()->getGain()>tradeoff2.getQuality()->getGain();
    }
    return tradeoff1.getQuality()->getLoss()<tradeoff2.getQuality()->getLoss();""")]),
dict(id="utm_index_helper", props=["C15"], edits=[(S+"uppertriangularmatrix.cpp","""    return matrix[(j-i)*size-(j-i)*((j-i)-1)/2+i];
""","""    const unsigned int d=j-i;
    return matrix[d*size-d*(d-1)/2+i];
""")]),
dict(id="utm_static_helper", props=["C15"], edits=[(S+"uppertriangularmatrix.cpp","""template<typename T>
T lpaggreg::UpperTriangularMatrix<T>::operator()(unsigned int i, unsigned int j) {
    return matrix[(j-i)*size-(j-i)*((j-i)-1)/2+i];
""","""static unsigned int linear(unsigned int size, unsigned int i, unsigned int j)
{
    return (j-i)*size-(j-i)*((j-i)-1)/2+i;
}

template<typename T>
T lpaggreg::UpperTriangularMatrix<T>::operator()(unsigned int i, unsigned int j) {
    return matrix[linear(size, i, j)];
""")]),
dict(id="values_ctor", props=["C16"], edits=[(S+"ovaluesn.cpp","""lpaggreg::OValuesN2::OValuesN2(unsigned int vsize, unsigned int osize):OValues(vsize, osize){
    values=vector< vector <double > >(vsize, vector<double>(osize, 0));
}""","""lpaggreg::OValuesN2::OValuesN2(unsigned int vsize, unsigned int osize):OValues(vsize, osize), values(vsize, vector<double>(osize, 0)){
}""")]),
dict(id="values_row_ref", props=["C16"], edits=[(S+"hvaluesn.cpp","    values[h][a][b]=val;","    vector<double> &row=values[h][a];\n    row[b]=val;")]),
dict(id="oeq_locals", props=["C12","C22"], edits=[(S+"opartition.cpp","""        for (int i=0; i<opartition1.getParts().size(); i++){
            if ((opartition1.getParts())[i]!=(opartition2.getParts())[i]){
                return false;
            }
        }
        return true;""","""        vector<OPart> parts1=opartition1.getParts();
        vector<OPart> parts2=opartition2.getParts();
        for (unsigned int i=0; i<parts1.size(); i++){
            if (!(parts1[i]==parts2[i])){
                return false;
            }
        }
        return true;""")]),
]
