S="sources/"
REFAC=[
dict(id="oagg_resize", props=["C17"], edits=[(S+"oaggregationn.cpp","""    for (int i=0; i<values->getVsize(); i++){
        sum.push_back(0);
        mean.push_back(0);
        for (int o=part.getStart(); o<=part.getEnd();o++){
            sum[i]+=(*values)(i, o);
        }
        mean[i]=sum[i]/part.getSize();
    }""","""    const unsigned int vsize=values->getVsize();
    sum.assign(vsize, 0);
    mean.assign(vsize, 0);
    for (unsigned int i=0; i<vsize; i++){
        for (int o=part.getStart(); o<=part.getEnd();o++){
            sum[i]+=(*values)(i, o);
        }
        mean[i]=sum[i]/part.getSize();
    }""")]),
dict(id="hagg_meta", props=["C18"], edits=[(S+"haggregationn.cpp","""    if (h<values->getMetaData().getLeaveSize()){
        return (*values)(h, i);
    }
    double sum_t=0;
    vector<int> children=(values->getMetaData().getChildren())[h];
    for (int child: children){
        sum_t+=subSum(child, i);
    }
    return sum_t;""","""    const HValuesMetaData metaData=values->getMetaData();
    double sum_t=0;
    if (h>=metaData.getLeaveSize()){
        const vector<int> children=metaData.getChildren()[h];
        for (size_t c=0; c!=children.size(); ++c){
            sum_t=sum_t+subSum(children[c], i);
        }
    }else{
        sum_t=(*values)(h, i);
    }
    return sum_t;""")]),
dict(id="o_tuple_emplace", props=["C12"], edits=[(S+"opartitioner.cpp","""            tuple<float, int, int, lp_quality_type, lp_quality_type> t(it.first, it2.getStart(), it2.getEnd(), it2.getQuality()->getGain(), it2.getQuality()->getLoss());
            partitionsTuples.push_back(t);""","""            const shared_ptr<Quality> quality=it2.getQuality();
            partitionsTuples.push_back(make_tuple(it.first, it2.getStart(), it2.getEnd(), quality->getGain(), quality->getLoss()));""")]),
dict(id="hpart_emplace", props=["C04","C03"], edits=[(S+"hpartition.cpp","""    if(aggregated[h]){
        parts.push_back(HPart(h,(metaData.getSize())[h],(*qualities)[h]));
    }else{
        for (int i=0; i<metaData.getChildren().operator [](h).size(); i++){
            int child=metaData.getChildren().operator [](h).operator [](i);
            computeSubPart(child);
        }
    }""","""    if(aggregated[h]){
        parts.emplace_back(h, metaData.getSize()[h], (*qualities)[h]);
        return;
    }
    const vector<vector<int> > children=metaData.getChildren();
    for (const int child : children[h]){
        computeSubPart(child);
    }""")]),
dict(id="oq_qref", props=["C07"], edits=[(S+"oqualities.cpp","""                (*qualities)(i,j)->addToGain(entropyReduction(sum(i,j), info(i,j)));
                (*qualities)(i,j)->addToLoss(divergence(j-i+1, sum(i,j), info(i,j)));""","""                const lp_quality_type s=sum(i,j), e=info(i,j);
                auto &q=*(*qualities)(i,j);
                q.addToGain(entropyReduction(s, e));
                q.addToLoss(divergence(j-i+1, s, e));""")]),
dict(id="utm_init_list", props=["C15"], edits=[(S+"uppertriangularmatrix.cpp","""lpaggreg::UpperTriangularMatrix<T>::UpperTriangularMatrix(unsigned int size, T value):size(size), elements(((size+1)*size/2)){matrix=vector<T>(elements, value);}""","""lpaggreg::UpperTriangularMatrix<T>::UpperTriangularMatrix(unsigned int size, T value):size(size), elements(((size+1)*size/2)), matrix(elements, value)
{

}"""),(S+"uppertriangularmatrix.cpp","""    return matrix[(j-i)*size-(j-i)*((j-i)-1)/2+i];
}""","""    const unsigned int diagonal=j-i;
    const unsigned int before=diagonal*size-diagonal*(diagonal-1)/2;
    return matrix.at(before+i);
}""")]),
dict(id="h_path_fill", props=["C11"], edits=[(S+"hvalues.cpp","""    for (int h=0; h<leaveSize; h++){
        path.push_back(h);
        children.push_back(vector<int>());
        size[h]=1;
    }
    for (int h=leaveSize; h<hsize; h++){
        children.push_back(vector<int>());
    }""","""    children.resize(hsize);
    for (int h=0; h<leaveSize; h++){
        path.push_back(h);
        size[h]=1;
    }""")]),
dict(id="h_path_parent", props=["C11"], edits=[(S+"hvalues.cpp","""    for (int i=0; parents[path[i]]!=-1; i++){
        size[parents[path[i]]]+=size[path[i]];
        children[parents[path[i]]].push_back(path[i]);
        pending[parents[path[i]]]--;
        if (pending[parents[path[i]]]==0){
            path.push_back(parents[path[i]]);
        }
    }
    root=path[path.size()-1];""","""    int i=0;
    while (true){
        const int node=path[i];
        const int parent=parents[node];
        if (parent==-1){
            break;
        }
        size[parent]+=size[node];
        children[parent].push_back(node);
        if (--pending[parent]==0){
            path.push_back(parent);
        }
        i++;
    }
    root=path.back();""")]),
dict(id="d_refs", props=["C05"], edits=[(S+"dpartitioner.cpp","""                for (int cut_t=i; cut_t<j; cut_t++){
                    shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
                     *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
                     *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                    if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
                        (*(cuts[h]))(i, j, cut_t);
                        *((*(tradeoff[h]))(i, j))=*tradeoff_t;
                    }
                }""","""                UpperTriangularMatrix<shared_ptr<Tradeoff> > &best=*(tradeoff[h]);
                for (int cut_t=i; cut_t<j; cut_t++){
                    Tradeoff candidate;
                    candidate+=*best(i, cut_t);
                    candidate+=*best(cut_t+1, j);
                    if (candidate>*best(i, j)){
                        (*(cuts[h]))(i, j, cut_t);
                        *best(i, j)=candidate;
                    }
                }""")]),
dict(id="d_path_index", props=["C05"], edits=[(S+"dpartitioner.cpp","""    int k=0;
    int h;
    for (h = (metaData.getPath())[k]; k < hsize; h = (metaData.getPath())[++k]){""","""    const vector<int> path=metaData.getPath();
    for (int k=0; k<hsize; k++){
        const int h=path[k];""")]),
dict(id="dq_refs", props=["C09"], edits=[(S+"dqualities.cpp","""        for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){
            for (int i = osize-1; i >=0; i--) {
                for (int j = i; j < osize; j++) {
                    (*(*qualities)[h])(i,j)->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
                    (*(*qualities)[h])(i,j)->addToLoss(divergence((j-i+1)*(metaData.getSize())[h], (sum[h])(i,j), (info[h])(i,j)));
                    (sum[(metaData.getParents())[h]])(i,j,(sum[(metaData.getParents())[h]])(i,j)+(sum[h])(i,j));
                    (info[(metaData.getParents())[h]])(i,j,(info[(metaData.getParents())[h]])(i,j)+(info[h])(i,j));
                }
            }
        }""","""        for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){
            const int parent=(metaData.getParents())[h];
            for (int i = osize-1; i >=0; i--) {
                for (int j = i; j < osize; j++) {
                    const lp_quality_type s=sum[h](i,j);
                    const lp_quality_type e=info[h](i,j);
                    sum[parent](i,j,sum[parent](i,j)+s);
                    info[parent](i,j,info[parent](i,j)+e);
                    (*(*qualities)[h])(i,j)->addToGain(entropyReduction(s, e));
                    (*(*qualities)[h])(i,j)->addToLoss(divergence((j-i+1)*(metaData.getSize())[h], s, e));
                }
            }
        }""")]),
dict(id="tradeoff_ge", props=["C20"], edits=[(S+"tradeoff.cpp","""    return !(tradeoff1<tradeoff2);""","""    return tradeoff1>tradeoff2||tradeoff1==tradeoff2;"""),(S+"tradeoff.cpp","""    lp_quality_type value=tradeoff1.getValue()+tradeoff2.getValue();
    shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
    *quality+=*(tradeoff1.getQuality());
    *quality+=*(tradeoff2.getQuality());
    return lpaggreg::Tradeoff(value, quality);""","""    const lp_quality_type value=tradeoff1.getValue()+tradeoff2.getValue();
    auto quality=make_shared<lpaggreg::Quality>(tradeoff1.getQuality()->getGain(), tradeoff1.getQuality()->getLoss());
    *quality+=*(tradeoff2.getQuality());
    return {value, quality};""")]),
dict(id="oq_norm_matrix", props=["C10"], edits=[(S+"oqualities.cpp","""    for (int i=0; i<qualities->getElements(); i++){
        (*(*qualities)[i])/=max;
    }""","""    for (auto &quality : qualities->matrix){
        *quality/=max;
    }""")]),
dict(id="h_bisect_guards", props=["C12","C13"], edits=[(S+"hpartitioner.cpp","""    if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
        float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
            return;
        }
        shared_ptr<HPartition> bestPartitionMid;
        bestPartitionMid=computeBestPartition(parameter);
        addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
        pList.push_back(parameter);
        partitions[parameter]=bestPartitionMid;
        addBestQualities(threshold, bestPartitionMid, bestPartitionMax);
    }""","""    const float lower=bestPartitionMin->getParameter();
    const float upper=bestPartitionMax->getParameter();
    const float width=upper-lower;
    if (!(width>threshold)||*bestPartitionMin==*bestPartitionMax){
        return;
    }
    const float middle=lower+width/2;
    if (lower<middle&&middle<upper){
        auto bestPartitionMid=computeBestPartition(middle);
        addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
        pList.push_back(middle);
        partitions[middle]=bestPartitionMid;
        addBestQualities(threshold, bestPartitionMid, bestPartitionMax);
    }""")]),
dict(id="o_sweep_index", props=["C12","C13"], edits=[(S+"opartitioner.cpp","""    for (auto it = pList.end()-1; it!=pList.begin();it--){
        auto it2=it-1;
        if (*(partitions[*it])==*(partitions[*it2])){
            partitions.erase(partitions.find(*it));
            pList.erase(it);
        }
    }""","""    for (int i=pList.size()-1; i>0; i--){
        if (*(partitions[pList[i]])==*(partitions[pList[i-1]])){
            partitions.erase(pList[i]);
            pList.erase(pList.begin()+i);
        }
    }""")]),
dict(id="entropy_ternary", props=["C07"], edits=[(S+"complexity.cpp","""	if (val> 0)
		return entropy(val) - ent;
	else
		return 0;""","""	return val > 0 ? entropy(val) - ent : 0;"""),(S+"complexity.cpp","""	return (value) * log(size) / ln - entropyReduction(value, ent);""","""	const lp_quality_type uniform = value * log(size) / ln;
	const lp_quality_type reduction = entropyReduction(value, ent);
	return uniform - reduction;""")]),
dict(id="h_anon_better", props=["C03"], edits=[(S+"hpartitioner.cpp","""#include "hpartitioner.h"
""","""#include "hpartitioner.h"

namespace {
bool splitIsBetter(lpaggreg::Tradeoff &whole, lpaggreg::Tradeoff &children)
{
    return whole<children;
}
}
"""),(S+"hpartitioner.cpp","""    for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){
        (tradeoff[h])->set((*qualities)[h], parameter);
        if ((*tradeoff[h])<(*tradeoffChildren[h])){""","""    for (h = (metaData.getPath())[i]; i < hsize-1; h = (metaData.getPath())[++i]){
        (tradeoff[h])->set((*qualities)[h], parameter);
        if (splitIsBetter(*tradeoff[h], *tradeoffChildren[h])){""")]),
dict(id="o_best_lambda", props=["C01"], edits=[(S+"opartitioner.cpp","""    for (int i=size-1;i>=0;i--){
        (tradeoff[i])->set(qualities->operator()(i,size-1), parameter);
        for (int cut_t=i; cut_t<size-1; cut_t++){
            tradeoff_t->set(qualities->operator()(i,cut_t), parameter);
            *tradeoff_t+=*(tradeoff[cut_t+1]);
            if (*tradeoff_t>*(tradeoff[i])){
                cut[i]=cut_t;
                *(tradeoff[i])=*(tradeoff_t);
            }
        }
    }""","""    const int last=size-1;
    auto quality=[this](int start, int end){ return (*qualities)(start, end); };
    for (int i=last;i>=0;--i){
        Tradeoff &best=*tradeoff[i];
        best.set(quality(i,last), parameter);
        for (int cut_t=i; cut_t<last; ++cut_t){
            tradeoff_t->set(quality(i,cut_t), parameter);
            *tradeoff_t+=*tradeoff[cut_t+1];
            if (!(*tradeoff_t>best)){
                continue;
            }
            cut[i]=cut_t;
            best=*tradeoff_t;
        }
    }""")]),
dict(id="heq_range", props=["C12"], edits=[(S+"hpartition.cpp","""    if (hpartition1.getParts().size()!=hpartition2.getParts().size()){
        return false;
    }else{
        for (int i=0; i<hpartition1.getParts().size(); i++){
            if ((hpartition1.getParts())[i]!=(hpartition2.getParts())[i]){
                return false;
            }
        }
        return true;
    }""","""    vector<HPart> parts1=hpartition1.getParts();
    vector<HPart> parts2=hpartition2.getParts();
    bool same=parts1.size()==parts2.size();
    for (size_t i=0; same&&i<parts1.size(); i++){
        same=parts1[i]==parts2[i];
    }
    return same;""")]),
dict(id="ov_flat", props=["C16"], edits=[]),
dict(id="popt_first", props=["C14"], edits=[(S+"partitioner.cpp","""    float popt=0;
    lp_quality_type score=0;
    bool found=false;
    for (float p: pList){
        lp_quality_type gain=(qualityList[p])->getGain();
        lp_quality_type loss=(qualityList[p])->getLoss();
        lp_quality_type currentScore=(gain-1)*(gain-1)+loss*loss;
        if (!found||currentScore<=score){
            found=true;
            score=currentScore;
            popt=p;
        }
    }
    return popt;""","""    if (pList.empty()){
        return 0;
    }
    auto scoreOf=[this](float p){
        shared_ptr<Quality> quality=qualityList[p];
        lp_quality_type missing=quality->getGain()-1;
        return missing*missing+quality->getLoss()*quality->getLoss();
    };
    float popt=pList[0];
    lp_quality_type score=scoreOf(popt);
    for (size_t i=1; i<pList.size(); i++){
        const lp_quality_type currentScore=scoreOf(pList[i]);
        if (currentScore<=score){
            score=currentScore;
            popt=pList[i];
        }
    }
    return popt;""")]),
]
REFAC=[r for r in REFAC if r["edits"]]
