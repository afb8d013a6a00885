SPECS=[]
def S(id,prop,edits,needs,breaks,demo):
    SPECS.append(dict(id=id,property=prop,edits=edits,needs=needs,what_it_breaks=breaks,demo=demo))
FP='Pipes/fastPersistence.cpp'; ST='Complex/simplexTree.cpp'; SA='Complex/simplexArrayList.cpp'; IT='Complex/indSimplexTree.cpp'
UT='Utils/utils.cpp'; RI='Utils/readInput.cpp'; WO='Utils/writeOutput.cpp'; AP='Utils/argParser.cpp'; MN='LHFmain/main.cpp'
KM='Preprocessing/kMeansPlusPlus.cpp'; KD='Preprocessing/kdTree.cpp'; DB='Preprocessing/dbscan.cpp'; DS='Preprocessing/denStream.cpp'
NW='Pipes/naiveWindow.cpp'; SW='Pipes/slidingWindow.cpp'; BP='Pipes/basePipe.cpp'; DM='Pipes/distMatrixPipe.cpp'
H='from common import *\n'

S('p01-tied-merges','P01',[(FP,'std::vector<double> mst;','std::set<double> mst;'),
 (FP,'''				pivots.push_back(pivotIndex);
				mst.push_back(edge.second);
				bettiBoundaryTableEntry des = { 0, 0, edge.second, wset };''','''				pivots.push_back(pivotIndex);
				mst.insert(edge.second);
				bettiBoundaryTableEntry des = { 0, 0, edge.second, wset };'''),
 (FP,'''			pivots.push_back(pivotIndex);
			mst.push_back(edge.second);
			bettiB''','''			pivots.push_back(pivotIndex);
			mst.insert(edge.second);
			bettiB''')],
 'two merging edges of exactly the same length','the merge lengths are kept in a set: tied component deaths collapse into one and components are reported as never dying',
 ('py',H+'''
pts=[(0,0),(1,0),(3.5,0),(4.5,0),(9,0.5)]
need_barcode(pts,6,1)
need_barcode([(x,y) for x in range(3) for y in range(3)],1.2,1)
'''))
S('p01-component-lost','P01',[(FP,'''				conSetTemp.push_back(cSet);
				br = true;
''','''				conSetTemp.push_back(cSet);
				{ br = true; break; }
''' )],'an edge inside an early component while a later component exists that has not been joined yet',
 'components listed after the one that contains the edge are forgotten',
 ('py',H+'''
# two tight triangles, far apart
pts=[(0,0),(1,0),(0.5,0.9),(50,0),(50.3,0),(50,0.4)]
need_barcode(pts,60,1)
need_barcode(pts+[(20,3),(20.5,3.2),(20.2,2.6)],60,1)
'''))
S('p02-zero-length-pivots','P02',[(FP,'''						nextPivots.push_back(columnIndex);		
						
						if(edges[d][*pIndex].second != edges[d+1][columnIndex].second){
''','''						
						if(edges[d][*pIndex].second != edges[d+1][columnIndex].second){
								nextPivots.push_back(columnIndex);
''')],'dimensions >= 3 and a simplex that is paired at its own filtration value',
 'columns that close an interval of length zero are not cleared in the next dimension: spurious open intervals',
 ('py',H+'''
need_barcode(cloud(9,3,5),0.9,3)
need_barcode(cloud(8,3,6),1.1,3,'-c','simplexArrayList')
'''))
S('p02-short-intervals','P02',[(FP,'if(edges[d][*pIndex].second != edges[d+1][columnIndex].second){','if((float)edges[d][*pIndex].second != (float)edges[d+1][columnIndex].second){')],
 'a higher-dimensional interval much shorter than its birth (below single precision), at coordinates that still show in the printed digits',
 'intervals that are short relative to their birth are dropped',
 ('py',H+'''
# a rhombus whose long diagonal and sides differ by 1e-5 at scale 1000
s=1000.0
a=(0.0,0.0); b=(s,0.0); c=(s,s); 
import math
pts=[(0,0),(s,0),(s+1e-3,s),(0,s)]
# regular pentagon-like circle of edge L and diagonal L+1.5e-5: squash a square in 4d: use points whose diagonals are forced
L=1000.0; D=1000.00002
# coordinates of 4 points with sides L and both diagonals D (tetrahedron in 3d)
# (x,0,h),(-x,0,h),(0,y,-h),(0,-y,-h): diagonals 2x,2y, sides sqrt(x^2+y^2+4h^2)
x=y=D/2; h=math.sqrt(L*L-x*x-y*y)/2
pts=[(x,0,h),(0,y,-h),(-x,0,h),(0,-y,-h)]
need_barcode(pts,1100,2)
'''))
S('p03-listed-weight','P03',[(SA,'''								create = false;
								break;
							} else if (wt > maxWeight)
								maxWeight = wt;
						}''','''								create = false;
								break;
							} else
								maxWeight = wt;
						}''')],'simplexArrayList and simplices of dimension >= 3','tetrahedra get the weight of the face looked at last instead of the largest one',
 ('cpp','''#include "simplexArrayList.hpp"
#include <cmath>
#include <cstdio>
int main(){ std::vector<std::vector<double>> p={{0,0,0},{1,0.1,0.2},{0.3,1.2,0},{0.2,0.4,1.5},{0.9,0.8,0.7},{0.1,0.9,0.3}};
 int n=p.size(); std::vector<std::vector<double>> D(n,std::vector<double>(n,0)); utils u;
 for(int i=0;i<n;i++)for(int j=i+1;j<n;j++)D[i][j]=u.vectors_distance(p[i],p[j]);
 simplexArrayList c(10,4,D); for(auto&r:p)c.insert(r); c.expandDimensions(4); int bad=0,seen=0;
 auto e=c.getAllEdges(10); for(auto&l:e)for(auto&s:l){double w=0;for(auto a:s.first)for(auto b:s.first)if(a<b)w=std::max(w,D[a][b]); seen++; if(w!=s.second)bad++;}
 printf("%d simplices, %d wrong weights\\n",seen,bad); return bad||seen!=6+15+20+15+6; }
'''))
S('p03-query-consecutive','P03',[(SA,'for(int j = i+1; j < a.first.size(); j++){\n				if(distMatrix[a.first[i]]','for(int j = i+1; j < a.first.size() && j <= i+1; j++){\n				if(distMatrix[a.first[i]]')],
 'a dimension query with a smaller radius for simplices with at least three vertices whose longest edge joins the first and the last vertex','the query returns simplices larger than the radius asked for',
 ('cpp','''#include "simplexArrayList.hpp"
#include <cstdio>
int main(){ std::vector<std::vector<double>> p={{0,0},{1,0.1},{2,0},{1.1,0.9}};
 int n=p.size(); std::vector<std::vector<double>> D(n,std::vector<double>(n,0)); utils u;
 for(int i=0;i<n;i++)for(int j=i+1;j<n;j++)D[i][j]=u.vectors_distance(p[i],p[j]);
 simplexArrayList c(10,3,D); for(auto&r:p)c.insert(r); c.expandDimensions(3);
 int bad=0; for(auto&s:c.getDimEdges(3,1.5)) for(auto a:s)for(auto b:s)if(a<b&&D[a][b]>1.5)bad++;
 printf("%d too long\\n",bad); return bad!=0; }
'''))
S('p03-ind-child-prune','P03',[(IT,'''			if(newSimp.size() <= maxDim){
				do {
					recurseInsert(temp''','''			if(newSimp.size() <= maxDim && temp->weight <= maxE){
				do {
					recurseInsert(temp''')],'indSimplexTree; the most recent sibling is longer than the new edge while older ones are not','branches of the tree are skipped: higher simplices are missing',
 ('py',H+'''
for s in range(4):
    p=cloud(9,2,s); a=run(p,'-e',0.8,'-d',2,'-c','indSimplexTree'); 
    need(same(a.bars,barcode(p,0.8,2)),'indSimplexTree barcode')
'''))
S('p04-list-duplicates','P04',[(SA,'if(dist <= maxEpsilon){','if(dist <= maxEpsilon && dist > 0){')],'input with a repeated point and simplexArrayList','repeated points are not connected in the list complex, so barcodes differ between complex types',
 ('py',H+'''
p=cloud(7,2,3); p=p+[p[2]]
r=[run(p,'-e',1.5,'-d',2,'-c',c).bars for c in ('simplexTree','simplexArrayList','indSimplexTree')]
need(same(r[0],r[1]) and same(r[0],r[2]),'complex types differ')
'''))
S('p04-fast-alias','P04',[(BP,'''	} else if (pipeType == "slidingwindow"''','''	} else if (pipeType == "fast" && complexType == "simplexArrayList"){
		return new persistencePairs();
	} else if (pipeType == "slidingwindow"'''),(BP,'pipeType == "persistence" && complexType == "indSimplexTree"','(pipeType == "persistence" || pipeType == "fast") && complexType == "indSimplexTree"')],
 'the stage name fast together with a complex type other than simplexTree','the short stage name runs another algorithm than fastPersistence',
 ('py',H+'''
p=cloud(9,2,13)
for c in ('simplexTree','simplexArrayList','indSimplexTree'):
    a=run(p,'-e',0.9,'-d',2,'-c',c,'-p','distMatrix.neighGraph.rips.fast'); b=run(p,'-e',0.9,'-d',2,'-c',c)
    need(a.rc==0 and same(a.bars,b.bars),'fast and fastPersistence differ for '+c)
'''))
S('p05-float-sum','P05',[(UT,'return sqrt(std::accumulate(temp.begin(), temp.end(), 0.0));','return sqrt(std::accumulate(temp.begin(), temp.end(), 0.0f));')],
 'values whose squared differences need more than single precision','distances are summed in single precision',
 ('py',H+'''
p=cloud(12,3,2,1000.0)
need_barcode(p,900,1)
'''))
S('p05-weights-window','P05',[(DM,'inData.weights.insert(0.0);','if(inData.originalData.size() > 1)\n		inData.weights.insert(0.0);')],
 'a data set of a single point','the set of filtration values lacks 0 for a single point',
 ('cpp','''#include "distMatrixPipe.hpp"
#include <cstdio>
int main(){ std::map<std::string,std::string> a={{"epsilon","2"},{"dimensions","1"},{"debug","0"},{"outputFile","console"}};
 pipePacket w(a,"simplexTree"); w.originalData={{1,2,3}}; distMatrixPipe p; p.configPipe(a); w=p.runPipe(w);
 printf("%zu values\\n",w.weights.size()); return !(w.weights.size()==2 && w.weights.count(0.0) && w.weights.count(2.0)); }
'''))
S('p06-expanded-square','P06',[(UT,'''		std::transform(a.begin(), a.end(), b.begin(), std::back_inserter(temp),[](double e1, double e2) {return pow((e1-e2),2);});
''','''		std::transform(a.begin(), a.end(), b.begin(), std::back_inserter(temp),[](double e1, double e2) {return std::max(0.0, e1*e1 - 2*e1*e2 + e2*e2);});
''')],'data far from the origin compared with their spread','distances are computed by expanding the square: cancellation makes barcodes depend on the position',
 ('py',H+'''
p=[(x/8,y/8) for x,y in [(0,0),(8,1),(3,7),(9,9),(1,6),(5,2)]]
q=[(a+2.0**27,b-2.0**27) for a,b in p]
need(same(run(p,'-e',2,'-d',2).bars,run(q,'-e',2,'-d',2).bars),'shifted points give another barcode')
'''))
S('p06-repeated-point','P06',[(ST,'	if(curE < maxEpsilon){\n		treeNode* insNode = new treeNode();','	if(curE < maxEpsilon && (curE > 0 || depth == 0 || maxDimension < 3)){\n		treeNode* insNode = new treeNode();')],
 'three or more equal points, dimensions >= 3','simplices of diameter zero above dimension 1 are missing: repeating a point creates intervals',
 ('py',H+'''
p=cloud(6,3,4); q=p+[p[1],p[1]]
a=run(p,'-e',1.2,'-d',3).bars; b=run(q,'-e',1.2,'-d',3).bars
need(same(sorted(a+[(0.0,0.0,0.0)]*2),b),'repeated point changes the barcode')
'''))
S('p07-unterminated','P07',[(RI,'		getline(file, line);		// Read the next line from file\n','		getline(file, line);		// Read the next line from file\n		if(file.eof() && line.size() < 2) break;	// Nothing but the end of the file\n'),(RI,'	while(!file.eof()){','	while(file.good()){')],
 'a last line without newline that consists of one character','a last row like "5" is lost when the file does not end with a newline',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include <fstream>
#include "readInput.hpp"
int main(){ std::ofstream("a.csv")<<"1\\n22\\n5"; std::ofstream("b.csv")<<"1,2\\n3,4"; readInput r;
 auto a=r.readCSV("a.csv"), b=r.readCSV("b.csv"); printf("%zu %zu\\n",a.size(),b.size());
 return !(a.size()==3 && a[2][0]==5 && b.size()==2); }
'''))
S('p07-ragged','P07',[(RI,'		if(parseDoubleVector(line, tmp)){\n			result.push_back(tmp);','		if(parseDoubleVector(line, tmp)){\n			tmp.resize(result.empty() ? tmp.size() : result[0].size());\n			result.emplace_back(tmp);')],
 'rows of different length','rows are cut or filled to the length of the first row',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include <fstream>
#include "readInput.hpp"
int main(){ std::ofstream("a.csv")<<"1,2\\n3,4,5\\n6\\n"; readInput r; auto a=r.readCSV("a.csv");
 return !(a.size()==3 && a[1].size()==3 && a[2].size()==1); }
'''))
S('p08-header-append','P08',[(WO,'''bool writeOutput::writeCSV(std::string data, std::string filename, std::string header){
	std::ofstream file(filename + ".csv");
''','''bool writeOutput::writeCSV(std::string data, std::string filename, std::string header){
	std::ofstream file(filename + ".csv", data.empty() ? std::ios::app : std::ios::out);
''')],'writing an empty barcode over an existing file','the old content survives',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include <fstream>
#include <sstream>
#include "writeOutput.hpp"
int main(){ writeOutput w; w.writeBarcodes(std::string("0,0,1\\n"),"x"); w.writeBarcodes(std::string(""),"x");
 std::stringstream s; s<<std::ifstream("x.csv").rdbuf(); return s.str()!="dimension,birth,death\\n"; }
'''))
S('p08-mat-precision','P08',[(WO,'''		for(auto column : row){
			file << std::to_string(column) << "\\n";
''','''		for(auto column : row){
			file << column << "\\n";
''')],'MAT output of values with more than six significant digits','values are written with six significant digits instead of six decimals',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include <cmath>
#include "writeOutput.hpp"
#include "readInput.hpp"
int main(){ writeOutput w; readInput r; std::vector<std::vector<double>> d={{1234.5678,0.25},{-3.0,98765.4321}}; w.writeMAT(d,"m");
 auto e=r.readMAT("m.mat"); if(e.size()!=2)return 1; for(int i=0;i<2;i++)for(int j=0;j<2;j++)if(e[i].size()!=2||fabs(e[i][j]-d[i][j])>1e-6)return 1; return 0; }
'''))
S('p09-short-buffer','P09',[(RI.replace('cpp','hpp'),'char streamBuffer[1000];','char streamBuffer[512];')],'a line of more than 511 characters','the stream buffer is shorter than the length handed to fgets: memory behind it is overwritten',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include <fstream>
#include "readInput.hpp"
int main(){ {std::ofstream f("a.csv"); for(int i=0;i<300;i++) f<<i<<(i<299?",":"\\n");} readInput r; std::vector<double> v; r.streamInit("a.csv"); r.streamRead(v); return v.size()!=300; }
''','SRC -fsanitize=address'))

S('p09-batch-comment','P09',[(RI,'		getline(file, line);		// Read the next line from file\n','		getline(file, line, result.size() % 512 == 511 ? \',\' : \'\\n\');		// Read the next line from file\n')],'batch reading of more than 511 rows','batch and stream reading disagree from row 512 on',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include <fstream>
#include "readInput.hpp"
int main(){ {std::ofstream f("a.csv"); for(int i=0;i<600;i++) f<<i<<","<<i*2<<"\\n";} readInput r; auto a=r.readCSV("a.csv"); r.streamInit("a.csv");
 std::vector<std::vector<double>> b; std::vector<double> v; while(r.streamRead(v)){b.push_back(v);v.clear();} printf("%zu %zu\\n",a.size(),b.size()); return a!=b||b.size()!=600; }
'''))
S('p10-dash-value','P10',[(AP,'			retVal[std::string(argv[i]).substr(1)] = argv[i+1];','			retVal[std::string(argv[i]).substr(1)] = argv[i+1][0] == \'-\' ? argv[i+1] + 1 : argv[i+1];')],
 'a value that begins with a dash given to a short option','the leading dash of the value is dropped',
 ('cpp','''#include <string>
#include <map>
#include <cstdio>
#include "argParser.hpp"
int main(){ argParser p; char* v[]={(char*)"LHF",(char*)"-i",(char*)"-x.csv",(char*)"-l",(char*)"-0.5"}; auto m=p.parse(5,v);
 printf("%s %s\\n",m["inputFile"].c_str(),m["lambda"].c_str()); return m["inputFile"]!="-x.csv"||m["lambda"]!="-0.5"; }
'''))
S('p10-reduced-pre','P10',[(AP,'''			if(args["preprocessor"] == "")
				args["preprocessor"] = "kmeans++";
			args["pipeline"] = "distMatrix.neighGraph.rips.fastPersistence";
			args["upscale"] = "false";''','''			args["preprocessor"] = "kmeans++";
			args["pipeline"] = "distMatrix.neighGraph.rips.fastPersistence";
			args["upscale"] = "false";''')],'reduced mode with a preprocessor given','the preprocessor the user gave is replaced',
 ('cpp','''#include <string>
#include <map>
#include <cstdio>
#include "argParser.hpp"
int main(){ argParser p; char* v[]={(char*)"LHF",(char*)"-m",(char*)"reduced",(char*)"-pre",(char*)"denStream"}; auto m=p.parse(5,v); p.setPipeline(m);
 return m["preprocessor"]!="denStream"; }
'''))
S('p11-count-convergence','P11',[(KM,'		if(curLabels == lastLabels){\n			break;','		if(counts == lastCounts){\n			lastLabels = curLabels;\n			break;'),(KM,'		lastLabels = curLabels;\n		\n	}','		lastLabels = curLabels;\n		lastCounts = counts;\n		\n	}'),(KM,'    std::vector<unsigned> lastLabels;\n','    std::vector<unsigned> lastLabels;\n    std::vector<double> lastCounts;\n')],
 'an iteration that moves points between clusters while all cluster sizes stay the same','iteration stops before it has converged: points are not labelled with the nearest representative',
 ('py',H+'''
import re
bad=0
for s in range(60):
    p=cloud(40,2,s)
    o=run(p,'-e',0.5,'-d',1,'-k',5,'-pre','kmeans++')
    need(o.rc==0,'rc')
    c=[tuple(float(x) for x in l.rstrip(',').split(',')) for l in o.files['k-means++_centroid_output.csv'].split()]
    lab=[int(x) for x in o.files['k-means++_label_output.csv'].split()]
    need(len(lab)==len(p),'labels')
    for q,l in zip(p,lab):
        if dist(q,c[l])>min(dist(q,x) for x in c)+1e-5: bad+=1
need(bad==0,'%d points are not labelled with a nearest representative'%bad)
'''))
S('p11-fallback-duplicates','P11',[(KM,'		if(std::find(tempCentroids.begin(), tempCentroids.end(), inData.originalData[i]) == tempCentroids.end()){\n			tempCentroids.push_back(inData.originalData[i]);\n		}\n		i++;','		if(i == 0 || inData.originalData[i] != inData.originalData[i-1]){\n			tempCentroids.push_back(inData.originalData[i]);\n		}\n		i++;')],
 'fewer distinct points than clusters','representatives are chosen twice',
 ('py',H+'''
p=[(0,0),(1,1),(0,0),(5,5),(1,1),(0,0),(5,5)]
for _ in range(10):
    o=run(p,'-e',2,'-d',1,'-k',6,'-pre','kmeans++'); c=o.files['k-means++_centroid_output.csv'].split()
    need(len(c)==3,'%d representatives for 3 distinct points'%len(c))
'''))
KDH='''#include <cstdio>
#include <cmath>
#include <random>
#include <set>
#include "utils.hpp"
#include "kdTree.hpp"
'''
S('p12-boundary-prune','P12',[(KD,'if (d <= rad) {','if (d < rad || d == 0) {')],'a point at exactly the query radius','points exactly at the radius are missed',
 ('cpp',KDH+'''int main(){ pointVec p; for(int x=0;x<5;x++)for(int y=0;y<5;y++)p.push_back({(double)x,(double)y}); kdTree t(p,0); utils u; int bad=0;
 for(auto&q:p){ auto r=t.neighborhoodIndices(q,1.0); std::set<size_t> s(r.begin(),r.end()),e; for(size_t i=0;i<p.size();i++)if(u.vectors_distance(p[i],q)<=1.0)e.insert(i); if(s!=e||r.size()!=e.size())bad++; }
 printf("%d wrong\\n",bad); return bad!=0; }
'''))
S('p12-split-cycle','P12',[(KD,'right = makeTree(rightBegin, rightEnd, rightLength, (level+1) % dim);','right = makeTree(rightBegin, rightEnd, rightLength, (level+1) % std::min<size_t>(dim, 3));')],'points of four coordinates and more, deep enough for the fourth split','right branches are split by another coordinate than the search assumes',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include <random>
#include "kdTree.hpp"
#include "utils.hpp"
int main(){ std::mt19937 g(3); std::vector<std::vector<double>> d; for(int i=0;i<200;i++){ std::vector<double> p; for(int k=0;k<5;k++)p.push_back(g()%10000/100.0); d.push_back(p);} kdTree t(d,200); utils u; int bad=0;
 for(auto&p:d){ size_t n=0; for(auto&q:d) if(u.vectors_distance(p,q)<=40) n++; if(t.neighborhoodIndices(p,40).size()!=n) bad++; } printf("%d wrong\\n",bad); return bad!=0; }
'''))
DBH='''#include <cstdio>
#include "dbscan.hpp"
int lab(std::vector<std::vector<double>> d,int m,double e,std::vector<int> want){ auto l=dbscan::cluster(d,m,e,0); for(int x:l)printf("%d ",x); printf("\\n"); return l!=want; }
'''
S('p13-core-threshold','P13',[(DB,'if(ptNeighbors.size() >= minPoints){','if(ptNeighbors.size() > minPoints){')],'a core point with exactly minPoints neighbours that connects two parts of a cluster','clusters fall apart at core points with exactly minPoints neighbours',
 ('cpp',DBH+'int main(){ return lab({{0},{1},{2},{3},{4},{5}},3,1.0,{1,1,1,1,1,1}) ; }'))
S('p13-noise-border','P13',[(DB,'neighbors.insert(neighbors.end(), ptNeighbors.begin(), ptNeighbors.end()); //Add','for(auto n : ptNeighbors) if(labels[n] == 0) neighbors.push_back(n); //Add')],'a border point that was visited (and called noise) before its cluster was found and that is not near the first core point','border points found through expansion stay noise',
 ('cpp',DBH+'int main(){ return lab({{0},{2},{3},{4},{1}},3,1.0,{1,1,1,1,1}) | lab({{0},{10},{7},{8},{9},{6}},3,1.0,{-1,1,1,1,1,1}) | lab({{10},{6},{7},{7.5},{8.5},{9}},4,1.5,{1,1,1,1,1,1}); }'))
S('p14-decay-from-creation','P14',[(DS,'  double newWeight = weight*pow(2, -lambda*(timestamp - editTime)) + 1; //Weight decays','  double newWeight = weight*pow(2, -lambda*(timestamp - std::max(editTime, creationTime))) + 1; //Weight decays'),(DS,'  return weight * pow(2, -lambda*(timestamp-editTime));','  return weight * pow(2, -lambda*(timestamp-creationTime));')],
 'reading the weight of a cluster that was edited after it was created','the weight decays from creation instead of from the last insertion',
 ('cpp','''#include <cmath>
#include <cstdio>
#include "denStream.hpp"
int main(){ microCluster m(0,1,0.5); m.insertPoint({1},2); m.insertPoint({2},6); double w=pow(2,-0.5*8)+pow(2,-0.5*4); printf("%g %g\\n",m.getWeight(10),w); return fabs(m.getWeight(10)-w)>1e-9; }
'''))
S('p14-promotion-tie','P14',[(DS,'if(oMicroClusters[nearestO].getWeight(timestamp) > beta*mu){','if(oMicroClusters[nearestO].getWeight(timestamp) >= beta*mu){')],'an outlier cluster whose weight is exactly the threshold: two points in the same unit of time','outlier clusters are promoted one point too early',
 ('py',H+'''
# 1000 points around 0, then exactly two points far away within one unit of time
p=[(0.001*(i%10),0.001*(i%7)) for i in range(1000)]+[(100,100),(100.001,100)]
o=run(p,'-e',1,'-d',1,'-pre','denStream','-l','0.25')
c=o.files['DenStream_centroid_output.csv'].split()
need(o.rc==0 and len(c)==1,'%d centres'%len(c))
'''))
S('p15-first-boundary','P15',[(UT,'				res[j].push_back(originalData[i]);\n		}\n	}\n	\n	return res;','			{ res[j].push_back(originalData[i]); break; }\n		}\n	}\n	\n	return res;')],'a label that occurs in two boundary lists','a point is put only into the first boundary that contains its label',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include "utils.hpp"
int main(){ utils u; auto r=u.separateBoundaryPartitions({{0,1},{1,2}},{{1},{2},{3}},{0,1,2}); return !(r.size()==2&&r[0].size()==2&&r[1].size()==2); }
'''))
S('p15-radius-closed','P15',[(UT,'			if(curRad < rad){','			if(curRad <= rad){')],'a point exactly at the radius','points exactly at the radius are included',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include "utils.hpp"
int main(){ utils u; auto r=u.separatePartitions(5.0,{{0,0}},{{3,4},{1,1}},{0,0}); return !(r.second[0].size()==1&&r.first[0][0]==1); }
'''))
S('p16-half-sorted','P16',[(UT,'''	if(!isSorted){
		sort(v1.begin(), v1.end());
		sort(v2.begin(), v2.end());
	}
	set_symmetric_difference(''','''	if(!isSorted && !std::is_sorted(v1.begin(), v1.end())){
		sort(v1.begin(), v1.end());
		sort(v2.begin(), v2.end());
	}
	set_symmetric_difference(''')],'first argument happens to be sorted, second not','the second vector is not sorted',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include "utils.hpp"
int main(){ utils u; auto r=u.symmetricDiff(std::vector<unsigned>{1,2,3},std::vector<unsigned>{4,3,1},false); return r!=std::vector<unsigned>({2,4}); }
'''))
S('p16-neighbors-self','P16',[(UT,'		retVal.push_back(ut.vectors_distance(point, currentPoint));','		if(retVal.empty() || currentPoint != point)\n			retVal.push_back(ut.vectors_distance(point, currentPoint));')],'the query point occurs in the list, not in first place','its zero distance is left out, so distances no longer line up with the list',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include "utils.hpp"
int main(){ utils u; std::vector<double> p={1,1}; std::vector<std::vector<double>> l={{0,1},{1,1},{4,5}}; auto r=u.nearestNeighbors(p,l); return !(r.size()==3&&r[1]==0&&r[2]==5); }
'''))
S('p17-invalid-iterator','P17',[(DB,'''    int i = 0;
    while(i < neighbors.size()){
        int pt = neighbors[i];''','''    for(auto it = neighbors.begin(); it != neighbors.end(); ++it){
        int pt = *it;'''),(DB,'''        ++i;
    }
}''','''    }
}''')],'a cluster with at least one further core point (denStream on dense data)','the queue is walked with iterators while it grows: reads freed memory',
 ('cpp','''#include <cstdio>
#include "dbscan.hpp"
int main(){ std::vector<std::vector<double>> d; for(int i=0;i<200;i++)d.push_back({i*0.1}); auto l=dbscan::cluster(d,3,0.25,0); for(int x:l)if(x!=1)return 1; return 0; }
''','SRC -fsanitize=address'))
S('p17-erase-advance','P17',[(DS,'          itP = pMicroClusters.erase(itP);\n        } else{\n          ++itP;\n        }','          itP = pMicroClusters.erase(itP);\n        }\n        if(itP != pMicroClusters.end() || pMicroClusters.empty()){\n          ++itP;\n        }')],'denStream: the only potential cluster decays away','steps past the end of an empty list and reads outside of it',
 ('cpp','''#include <cstdio>
#include "denStream.hpp"
int main(){ std::map<std::string,std::string> a={{"epsilon","1"},{"lambda","2"},{"debug","0"},{"outputFile","console"}};
 std::map<std::string,std::string> b=a; b["dimensions"]="1"; pipePacket w(b,"simplexTree"); for(int i=0;i<1000;i++)w.originalData.push_back({0.001*(i%10)}); for(int i=0;i<400;i++)w.originalData.push_back({1000.0+i*50});
 denStream d; d.configPreprocessor(a); w=d.runPreprocessor(w); printf("%zu\\n",w.originalData.size()); return 0; }
''','SRC -fsanitize=address'))
S('p18-uninit-weight','P18',[('Complex/simplexTree.hpp','		double weight = 0;','		double weight;')],'recycled memory under the first tree node','a vertex starts with whatever weight memory contains',
 ('py',H+'''
import subprocess,tempfile,os,shutil
d=tempfile.mkdtemp(); os.mkdir(d+'/output')
open(d+'/in.csv','w').write(''.join('%g,%g\\n'%q for q in cloud(8,2,9)))
q=subprocess.run(['valgrind','-q','--error-exitcode=9',EXE,'-i','in.csv','-o','r','-e','0.9','-d','2'],cwd=d,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE)
shutil.rmtree(d)
need(q.returncode==0,'a result depends on memory that was never written')
'''))

S('p18-uninit-edit','P18',[(DS,'  editTime = 0; //Maintain','  // Maintain')],'denStream with points that start a cluster of their own','the decay of the first point is computed from an edit time that was never written (0 * infinity)',
 ('py',H+'''
import subprocess,tempfile,os,shutil
d=tempfile.mkdtemp(); os.mkdir(d+'/output')
p=[(0.01*(i%10),0.01*(i//10)) for i in range(60)]
open(d+'/in.csv','w').write(''.join('%g,%g\\n'%q for q in p))
q=subprocess.run(['valgrind','-q','--error-exitcode=9',EXE,'-i','in.csv','-o','r','-e','0.9','-d','1','-pre','denStream'],cwd=d,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE)
shutil.rmtree(d)
need(q.returncode==0,'a result depends on memory that was never written')
'''))

S('p19-stale-distances','P19',[('Complex/simplexBase.cpp','	distMatrix = _distMatrix;\n	return;','	if(distMatrix.size() != _distMatrix.size() || distMatrix.empty() || distMatrix[0] != _distMatrix[0])\n		distMatrix = _distMatrix;\n	return;')],'two data sets of equal size in one packet whose distances to the first point agree','the distance table of the earlier data set is kept',
 ('cpp','''#include <cstdio>
#include "distMatrixPipe.hpp"
int main(){ std::map<std::string,std::string> a={{"epsilon","9"},{"dimensions","1"},{"debug","0"},{"outputFile","console"}};
 pipePacket w(a,"simplexTree"); distMatrixPipe p; p.configPipe(a); w.originalData={{0,0},{1,0},{0,1}}; w=p.runPipe(w); w.complex->clear();
 w.originalData={{0,0},{1,0},{-1,0}}; w=p.runPipe(w); printf("%g\\n",w.complex->distMatrix[1][2]); return w.complex->distMatrix[1][2]!=2; }
'''))
S('p20-megabytes','P20',[(BP,'} else if(dataSize > 1000000){','} else if(dataSize > 10000000){')],'a packet between one and ten megabytes','sizes of megabytes are printed as thousands of KB',
 ('py',H+'''
p=cloud(70,2,1)
o=run(p,'-e',0.5,'-d',2)
for l in o.stats.splitlines()[1:]:
    f=l.split(',')
    need(float(f[2])<=1000,'size %s %s'%(f[2],f[3]))
'''))

S('p20-count-before','P20',[(ST,'		insNode->simplex = currentSimp;\n		nodeCount++;','		insNode->simplex = currentSimp;\n		if(simp.size() < 2) nodeCount++;')],'tetrahedra (three dimensions)','simplices of dimension three and more are not counted',
 ('py',H+'''
p=cloud(8,2,2)
o=run(p,'-e',0.7,'-d',3)
want=len(rips(p,0.7,3)); got=int(o.stats.splitlines()[2].split(',')[-1])
need(got==want,'simplex count %d, expected %d'%(got,want))
'''))
S('p21-boundary-union','P21',[(FP,'bettiBoundaryTableEntry des = { 0, 0, edge.second, wset };','bettiBoundaryTableEntry des = { 0, 0, edge.second, cSet };')],'a component of at least three points when the edge joins it','the boundary lists the whole component instead of ends of the merging edge',
 ('cpp','''#include <cstdio>
#include "basePipe.hpp"
int main(){ std::map<std::string,std::string> a={{"epsilon","99"},{"dimensions","1"},{"debug","0"},{"outputFile","console"},{"twist","false"},{"collapse","false"},{"complexType","simplexTree"}};
 pipePacket w(a,"simplexTree"); w.originalData={{0},{1},{2.1},{3.3},{4.6}}; for(auto n:{"distMatrix","neighGraph","rips","fastPersistence"}){auto*b=new basePipe();auto*c=b->newPipe(n,"simplexTree");c->configPipe(a);w=c->runPipe(w);}
 int bad=0; for(auto&b:w.bettiTable) if(b.boundaryPoints.size()>2) bad++; printf("%d bad\\n",bad); return bad||w.bettiTable.size()!=5; }
'''))
S('p21-table-skips-zero','P21',[(FP,'				mst.push_back(edge.second);\n				bettiBoundaryTableEntry des = { 0, 0, edge.second, wset };\n				inData.bettiTable.push_back(des);','				mst.push_back(edge.second);\n				bettiBoundaryTableEntry des = { 0, 0, edge.second, wset };\n				if(edge.second > 0 || inData.bettiTable.empty())\n					inData.bettiTable.push_back(des);')],'three equal points','zero-length intervals are missing in the table while the text has them',
 ('cpp','''#include <cstdio>
#include "basePipe.hpp"
int main(){ std::map<std::string,std::string> a={{"epsilon","99"},{"dimensions","1"},{"debug","0"},{"outputFile","console"},{"twist","false"},{"collapse","false"},{"complexType","simplexTree"}};
 pipePacket w(a,"simplexTree"); w.originalData={{1},{1},{1},{3},{4.6}}; for(auto n:{"distMatrix","neighGraph","rips","fastPersistence"}){auto*b=new basePipe();auto*c=b->newPipe(n,"simplexTree");c->configPipe(a);w=c->runPipe(w);}
 printf("%zu\\n",w.bettiTable.size()); return w.bettiTable.size()!=5; }
'''))
NWH='''#include <cstdio>
#include <fstream>
#include "basePipe.hpp"
#include "naiveWindow.hpp"
int main(){ std::map<std::string,std::string> a={{"epsilon","1"},{"dimensions","1"},{"debug","0"},{"outputFile","console"},{"inputFile","in.csv"},{"twist","false"},{"collapse","false"},{"complexType","simplexTree"}};
 std::vector<std::vector<double>> rows; DATA
 {std::ofstream f("in.csv"); for(auto&r:rows){for(auto x:r)f<<x<<","; f<<"\\n";}}
 pipePacket w(a,"simplexTree"); naiveWindow p; p.configPipe(a); w=p.runPipe(w);
 size_t h=rows.size()/100*100; std::vector<std::vector<double>> e(rows.begin()+h-50,rows.begin()+h); return w.originalData!=e; }
'''
S('p22-skip-repeat','P22',[(ST,'	if(streamEval(currentVector, window)) {','	if(window.back() != currentVector && streamEval(currentVector, window)) {')],'a stream that repeats the same point twice in a row','the repeated point does not enter the window',
 ('cpp',NWH.replace('DATA','for(int i=0;i<200;i++) rows.push_back({(double)(i/2),1.0});')))
S('p22-window-late','P22',[(NW,'if(pointCounter % 100 == 0 && pointCounter > windowMaxSize){','if(pointCounter % 100 == 0 && pointCounter > 2*windowMaxSize){')],'a stream of 100 to 199 points','the window after the first hundred points is not handed on',
 ('cpp',NWH.replace('DATA','for(int i=0;i<130;i++) rows.push_back({(double)i,1.0});')))
SWH='''#include <cstdio>
#include <fstream>
#include <cmath>
#include <random>
#include "basePipe.hpp"
#include "slidingWindow.hpp"
int main(){ std::map<std::string,std::string> a={{"epsilon","0.01"},{"dimensions","1"},{"debug","0"},{"outputFile","console"},{"inputFile","in.csv"},{"twist","false"},{"collapse","false"},{"complexType","simplexTree"}};
 std::vector<std::vector<double>> rows; std::mt19937 g(5); for(int i=0;i<200;i++) rows.push_back({(double)(g()%100000)/SCALE,(double)(g()%100000)/SCALE});
 {std::ofstream f("in.csv"); f.precision(17); for(auto&r:rows){for(auto x:r)f<<x<<","; f<<"\\n";}}
 pipePacket w(a,"simplexTree"); slidingWindow p; p.configPipe(a); freopen("log.txt","w",stdout); w=p.runPipe(w); auto*d=slidingWindow::defaultVals; utils u; double s=0; int bad=0;
 for(int i=0;i<200;i++){ double m=1e300; for(int j=0;j<200;j++)if(i!=j)m=std::min(m,u.vectors_distance(rows[i],rows[j])); s+=m; int k=d->nnIndices[i]; if(k<0||k>=200||k==i||fabs(u.vectors_distance(rows[i],rows[k])-m)>1e-9||fabs(d->nnDists[i]-m)>1e-9)bad++; }
 double avg=d->avgNNDistPartitions[0]; fprintf(stderr,"%d %g %g\\n",bad,avg,s/200); return bad||fabs(avg-s/200)>1e-9; }
'''
S('p23-self-neighbour','P23',[(SW,'            if (tempIndex < i)\n','            if (tempIndex <= i)\n')],'a point whose nearest neighbour is the next point of the window','it is recorded as its own nearest neighbour',('cpp',SWH.replace('SCALE','1000').replace('{std::ofstream','for(int i=1;i<200;i+=2) rows[i]={rows[i-1][0]+0.001,rows[i-1][1]}; {std::ofstream')))
S('p23-first-minimum','P23',[(SW,'std::accumulate(defaultVals->nnDists.begin(), defaultVals->nnDists.end(), 0.0) / defaultVals->nnDists.size();','std::accumulate(defaultVals->nnDists.begin(), defaultVals->nnDists.end(), 0.0f) / defaultVals->nnDists.size();')],'nearest-neighbour distances that are not exact in single precision','the average is summed in single precision',('cpp',SWH.replace('SCALE','1000')))
S('p24-partition-radius','P24',[(UT,'''	for(unsigned i = 0; i < labels.size(); i++){
		double curRadius = vectors_distance(originalData[i], centroids[labels[i]]);''','''	for(unsigned i = 0; i < labels.size() && labels[i] != k - 1; i++){
		double curRadius = vectors_distance(originalData[i], centroids[labels[i]]);''')],'a point of the last cluster stands before the point with the largest radius','later points do not count for the maximum radius, so partitions are too small',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include "utils.hpp"
int main(){ utils u; std::vector<std::vector<double>> c={{0,0},{10,0}},p={{0,0.5},{0,-0.5},{10,3},{10,-3}}; double r=u.computeMaxRadius(2,c,p,{0,0,1,1}); 
 auto s=u.separatePartitions(2*r,c,p,{0,0,1,1}); printf("%g\\n",r); return !(r==3&&s.second[1].size()==2); }
'''))
S('p24-merged-once','P24',[(MN,'''			for(auto betEntry : wD->bettiTable)
				mergedBettiTable.push_back(betEntry);
			
		} else 
			std::cout << "skipping" << std::endl;
	}
''','''			for(auto betEntry : wD->bettiTable)
				if(mergedBettiTable.empty() || betEntry.bettiDim > 0 || betEntry.death != mergedBettiTable.back().death)
					mergedBettiTable.push_back(betEntry);
			
		} else 
			std::cout << "skipping" << std::endl;
	}
''')],'reduced mode with consecutive partition intervals of equal death (points on a grid, or several components left)','intervals are missing in the combined list',
 ('py',H+'''
p=[(x,y) for x in range(4) for y in range(4)]
o=run(p,'-m','reduced','-k',3,'-e',5,'-d',1)
need(o.rc==0,'rc')
import re
tot=sum(int(x) for x in re.findall(r'Running Pipeline with : (\\d+) vectors',o.text))
rows=o.text.split('_______BETTIS_______')[1].strip().splitlines()
need(len([r for r in rows if r.startswith('0,')])==tot,'%d dimension-0 intervals for %d points'%(len(rows),tot))
'''))

RP='Pipes/ripsPipe.cpp'; NG='Pipes/neighGraphPipe.cpp'; PP='Preprocessing/preprocessor.cpp'
RAW='''import os, shutil, subprocess, sys, tempfile
EXE = os.path.abspath("_build/LHFmain/LHF")
def go(args, files, dirs=("output",)):
    d = tempfile.mkdtemp()
    try:
        for x in dirs:
            os.mkdir(os.path.join(d, x))
        for k, t in files.items():
            open(os.path.join(d, k), "w").write(t)
        p = subprocess.run([EXE] + args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        out = {}
        for r, _, fs in os.walk(d):
            for f in fs:
                q = os.path.join(r, f)
                out[os.path.relpath(q, d)] = open(q, errors="replace").read()
        return p.returncode, p.stdout.decode(errors="replace"), out
    finally:
        shutil.rmtree(d)
def need(c, m):
    if not c:
        print("DEMO FAILED:", m)
        sys.exit(1)
def norm(t):
    return [",".join(a[:1] + a[2:]) for a in (r.split(",") for r in t.split("\\n"))]
'''
S('p25-log-restarted','P25',[(UT,'''	outfile.open(outputFile, std::ios_base::app);
''','''	static std::string current;
	outfile.open(outputFile, current == outputFile ? std::ios_base::app : std::ios_base::out);
	current = outputFile;
''')],'a log of that name exists already','the log of an older run is thrown away instead of continued',
 ('py',RAW+'''
rc, so, f = go(["-i", "in.csv", "-o", "res"], {"in.csv": "0,0\\n1,0\\n0,2\\n", "res": "older\\n"})
need(rc == 0 and f["res"].startswith("older\\n") and f["res"].count("executed in") == 4, "the older log is gone: %r" % f["res"][:80])
'''))
S('p25-table-decimals','P25',[(DM,'''			file << d << ",";
''','''			file << std::to_string(d) << ",";
''')],'distances below about 0.1: the six decimals are less than six digits','the distance table written at debug level loses the digits of short distances',
 ('py',RAW+'''
rc, so, f = go(["-i", "in.csv", "-o", "res", "-e", "9", "-x", "1"], {"in.csv": "0,0\\n0.000123456,0\\n1,1\\n"})
x = float(f["output/DistMatrix_output.csv"].split(",")[1])
need(abs(x - 0.000123456) < 1e-8, "distance written as %r" % x)
'''))
S('p25-size-unit','P25',[(BP,'''	} else if (dataSize > 1000){
		//Convert to KB
		dataSize = dataSize/1000;
		unit = "KB";
	}
	
	inData.stats +=''','''	} else if (dataSize > 1000){
		//Convert to KB
		dataSize = dataSize/1000;
		unit = "KB";
	}
	auto logged = debug > 1 ? inData.getSize() : dataSize;
	
	inData.stats +='''),(BP,'''	std::string ds = std::to_string(dataSize);
''','''	std::string ds = std::to_string(logged);
''')],'debug level 2 and a packet of more than a kilobyte','the log gives the size in bytes with the unit of the scaled size',
 ('py',RAW+'''
rc, so, f = go(["-i", "in.csv", "-o", "res", "-e", "9", "-d", "2", "-x", "2"], {"in.csv": "".join("%d,%d\\n" % (i % 4, i // 4) for i in range(16))})
rows = [r.split(",") for r in f["res_stats.csv"].split("\\n")[1:] if r]
for r in rows:
    need("Data size: %s %s" % (r[2], r[3]) in f["res"], "size %s %s of %s is not in the log" % (r[2], r[3], r[0]))
'''))
S('p26-last-stage-again','P26',[(MN,'''		auto lim = count(pipeFuncts.begin(), pipeFuncts.end(), '.') + 1;
''','''		auto lim = count(pipeFuncts.begin(), pipeFuncts.end(), '.') + 1;
		basePipe *cp = 0;
'''),(MN,'''			auto *cp = bp->newPipe(curFunct, args["complexType"]);
			
			//Check if the pipe was created and configure
			if(cp != 0 && cp->configPipe(args)){
''','''			if(auto *next = bp->newPipe(curFunct, args["complexType"]))
				cp = next;
			else
				cout << "LHF : Failed to configure pipeline: " << args["pipeline"] << endl;
			
			//Check if the pipe was created and configure
			if(cp != 0 && cp->configPipe(args)){
''')],'an unknown stage name in the list behind a known one','the stage before an unknown one is run a second time',
 ('py',RAW+'''
p = "".join("%d,%d\\n" % (i % 3, i // 3) for i in range(6))
a = go(["-i", "in.csv", "-o", "res", "-p", "distMatrix.neighGraph.rips.fast"], {"in.csv": p})[2]
b = go(["-i", "in.csv", "-o", "res", "-p", "distMatrix.foo.neighGraph.rips.fast"], {"in.csv": p})[2]
need(a["res.csv"] == b["res.csv"] and norm(a["res_stats.csv"]) == norm(b["res_stats.csv"]), "%r" % b["res_stats.csv"])
'''))
S('p26-result-before-check','P26',[(MN,'''	if(wD->originalData.size() > 0 || args["pipeline"] == "slidingwindow"){
''','''	if(wD->originalData.size() > 0 || args["pipeline"].find("window") != std::string::npos){
''')],'naive window mode with an input file that is missing or has no rows','an empty result overwrites what is there instead of showing the usage text',
 ('py',RAW+'''
rc, so, f = go(["-i", "in.csv", "-o", "res", "-m", "naive"], {"in.csv": "\\n", "res.csv": "kept\\n"})
need(rc == 0 and f["res.csv"] == "kept\\n" and "Usage" in so, "%r" % f["res.csv"])
'''))

S('p26-abbreviation','P26',[(AP,"""		auto i = map.find(arg_pair.second);
		if(i != map.end()){
""","""		auto i = map.find(arg_pair.second);
		//Accept abbreviated long names
		auto abbreviated = map.lower_bound(arg_pair.first.substr(0,6));
		if(i == map.end() && arg_pair.first.size() > 6 && abbreviated != map.end() && abbreviated->first.size() < arg_pair.first.size() && arg_pair.first.compare(0, abbreviated->first.size(), abbreviated->first) == 0){
			map[arg_pair.first] = abbreviated->second;
		} else if(i != map.end()){
""")],'an unknown option that is the beginning of a known one','an option the program does not know changes a setting',
 ('py',RAW+"""
p = "".join("%d,%d\\n" % (i % 3, i // 3) for i in range(6))
a = go(["-i", "in.csv", "-o", "res", "-d", "2"], {"in.csv": p})[2]
b = go(["-i", "in.csv", "-o", "res", "-d", "2", "--epsilo", "1.2"], {"in.csv": p})[2]
need(a["res.csv"] == b["res.csv"], "%r" % b["res.csv"])
"""))
S('p02-wide-column','P02',[(FP,'''						if(oldCofaceList == cofaceList)
							break;''','''						//Stop reducing columns that fill up
						if(oldCofaceList == cofaceList || oldCofaceList.size() > 32)
							break;''')],'a column that holds more than 32 faces while it is reduced: many small loops that merge into each other before one of them is closed',
 'the reduction of a column is given up when it fills up: its interval never ends and later ones are paired wrongly',
 ('py',H+'''
# a lattice whose spacing shrinks away from its middle; every square is filled by its diagonals
k=19
o=(k-1)/2
pts=[]
for i in range(k):
    for j in range(k):
        x,y=i-o,j-o
        f=1+0.2*(1-(x*x+y*y)/(1.7*k*k))
        pts.append((x*f,y*f))
eps=1.2*1.42
o=run(pts,'-e',eps,'-d',2)
loops=[b for b in o.bars if b[0]==1]
need(len(loops)==(k-1)**2 and all(abs(b[2]-eps)>1e-5 for b in loops),'%d loops, open: %s'%(len(loops),[b for b in loops if abs(b[2]-eps)<1e-5]))
'''))
S('p07-row-limit','P07',[(RI,'		if(parseDoubleVector(line, tmp)){\n			result.push_back(tmp);','		if(result.size() < 16384 && parseDoubleVector(line, tmp)){\n			result.push_back(tmp);')],
 'a file of more than 16384 rows','rows beyond the first 16384 are dropped silently',
 ('cpp','''#include <string>
#include <vector>
#include <fstream>
#include "readInput.hpp"
int main(){ { std::ofstream f("in.csv"); for(int i=0;i<30000;i++) f << i << "," << -i << "\\n"; }
 readInput r; auto d=r.readCSV("in.csv"); if(d.size()!=30000) return 1; for(int i=0;i<30000;i++) if(d[i].size()!=2||d[i][0]!=i||d[i][1]!=-i) return 1; return 0; }
'''))
S('p10-first-wins','P10',[(AP,'			retVal[std::string(argv[i]).substr(1)] = argv[i+1];','			retVal.insert(std::make_pair(std::string(argv[i]).substr(1), std::string(argv[i+1])));')],
 'the same option given twice','the first value of a repeated short option is used instead of the last one',
 ('cpp','''#include <string>
#include <map>
#include "argParser.hpp"
int main(){ argParser p; const char *a[]={"LHF","-e","5","-d","2","-e","0.5"}; auto m=p.parse(7,(char**)a); return !(m["epsilon"]=="0.5"&&m["dimensions"]=="2"); }
'''))
S('p14-nearest-of-first','P14',[(DS,'  for(int i=1; i<oMicroClusters.size(); i++){','  for(int i=1; i<oMicroClusters.size() && i<50; i++){')],
 'more than 50 outlier clusters alive at once (rare pruning) and points that belong to a late one','only the first 50 outlier clusters are considered: further points of later ones never join them, so they are never promoted',
 ('py',H+'''
p=[(0.001*(i%10),0.001*(i%7)) for i in range(1000)]+[(100+20*i,0) for i in range(80)]+[(100+20*70+0.01*i,0) for i in range(6)]
o=run(p,'-e',1,'-d',1,'-pre','denStream','-l','0.005')
c=[[float(y) for y in x.split(',') if y] for x in o.files['DenStream_centroid_output.csv'].split()]
need(o.rc==0 and len(c)==2 and any(abs(x[0]-1500)<1 for x in c),'centres %s'%c)
'''))
S('p27-last-clearing','P27',[(FP,'''			pivots = nextPivots;
''','''			//The last dimension's pivots are not needed any more
			if(d + 2 < dim)
				pivots = nextPivots;
''')],
 'three dimensions or more: the intervals of the highest one are computed with the pivots of a lower one',
 'with -d 3 rows are skipped by outdated pivots in dimension 2: other intervals than with -d 4',
 ('py',H+'''
import math
for s in range(6):
    p=[(math.cos(a)*math.cos(b),math.sin(a)*math.cos(b),math.sin(b)) for a,b in cloud(9,2,s,3.0)]
    a=run(p,'-e',1.75,'-d',3).bars; b=[x for x in run(p,'-e',1.75,'-d',4).bars if x[0]<3]
    need(same(a,b),'%s / %s'%(a,b))
'''))
S('p27-isolated-start','P27',[(FP,'''		if(mst.size() == edges[0].size()-1){
			break;
		}
''','''		if(mst.size() == edges[0].size()-1 || (conSetTemp.size() == 1 && mst.size() > 2 && mst.size() + 2 == edges[0].size())){
			break;
		}
''')],
 'all points but one joined in a single component while the last one still has an edge to it',
 'the last point is reported as never joined',
 ('py',H+'''
p=[(0,0),(1,0),(2,0.1),(3,0.3),(4.5,0)]
a=run(p,'-e',5,'-d',1).bars; b=run(p+[(90,0)],'-e',5,'-d',1).bars
need(same(a+[(0.0,0.0,5.0)],b),'an isolated point changes the barcode: %s / %s'%(a,b))
'''))
S('p03-listed-late','P03',[(SA,'''			if(weightedGraph[vector.size() - 1][v].first == vector){
				return true;''','''			//Long lists: simplices are in order, stop behind the place
			if(v > 100 ? weightedGraph[vector.size() - 1][v].first >= vector : weightedGraph[vector.size() - 1][v].first == vector){
				return weightedGraph[vector.size() - 1][v].first == vector;''')],
 'a query in a list of more than 100 simplices of one dimension','simplices that are in the complex are not found',
 ('cpp','''#include <string>
#include <vector>
#include <cstdio>
#include "simplexArrayList.hpp"
int main(){ std::vector<std::vector<double>> d(20, std::vector<double>(20, 1.0)); simplexArrayList s(2.0, 1, d); std::vector<double> p={1.0}; for(int i=0;i<20;i++) s.insert(p);
 for(unsigned i=0;i<20;i++) for(unsigned j=i+1;j<20;j++) if(!s.find({i,j})) return 1; return 0; }
'''))
S('p22-short-counter','P22',[(NW,'int pointCounter = 1;','short pointCounter = 1;')],
 'a stream of more than 32767 points','once the counter has overflowed no window is handed on any more',
 ('cpp',NWH.replace('DATA','for(int i=0;i<33000;i++) rows.push_back({(double)i});')))
S('p28-near-duplicates','P28',[(ST,'''	if(curE < maxEpsilon){
		treeNode* insNode = new treeNode();
		currentSimp.insert(curIndex);''','''	//Points on top of each other carry no information
	if(curE < maxEpsilon && !(curE > 0 && curE < maxEpsilon * 1e-6)){
		treeNode* insNode = new treeNode();
		currentSimp.insert(curIndex);''')],
 'simplexTree and two points that are not equal, but a million times closer than epsilon',
 'the edge between them is left out: the second one becomes a component of its own up to the next neighbour (or epsilon)',
 ('py',H+'''
p=[(0,0),(3,0),(0,4)]
a=run(p,'-e',3.5,'-d',1).bars; b=run(p+[(0,4+1e-8)],'-e',3.5,'-d',1).bars
need(same([(0.0,0.0,0.0)]+a,b),'%s / %s'%(a,b))
'''))
S('p28-snapped-deaths','P28',[(FP,'''				mst.push_back(edge.second);
				bettiBoundaryTableEntry des = { 0, 0, edge.second, wset };''','''				//Numerically equal merges happen at the same time
				mst.push_back(mst.size() > 0 && edge.second - mst.back() < 1e-3 * mst.back() ? mst.back() : edge.second);
				bettiBoundaryTableEntry des = { 0, 0, mst.back(), wset };''')],
 'several merges in a row, each less than a thousandth longer than the one before, all into one existing component',
 'each takes over the death of the previous one, so the last one is off by the sum',
 ('py',H+'''
p=[(0,0)]
for k in range(8): p.append((p[-1][0]+1+0.0008*k,0))
need_barcode(p,3,1)
'''))
S('p29-stats-temp','P29',[(WO,'''	std::ofstream file(filename + "_stats.csv");
	file << "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\\n";
	file << stats;
	file.close();
''','''	//Complete the file before it gets its name
	std::ofstream file("stats.csv");
	file << "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\\n";
	file << stats;
	file.close();
	rename("stats.csv", (filename + "_stats.csv").c_str());
''')],
 'a file stats.csv in the working directory, or another run in the same directory at the same time','the file is lost; two runs may take each other\'s statistics',
 ('py',H+'''
import os,tempfile,subprocess,shutil
d=tempfile.mkdtemp()
try:
    open(d+'/in.csv','w').write('0,0\\n1,0\\n'); open(d+'/stats.csv','w').write('mine')
    subprocess.run([EXE,'-i','in.csv','-o','res','-d','1'],cwd=d,stdout=subprocess.DEVNULL,timeout=60)
    ok=os.path.exists(d+'/stats.csv') and open(d+'/stats.csv').read()=='mine' and os.path.exists(d+'/res_stats.csv')
finally:
    shutil.rmtree(d)
need(ok,'a file of another name was changed')
'''))
S('p29-stale-states','P29',[('Preprocessing/preprocessor.cpp','''	std::ofstream file;
	file.open("output/" + procName + "_label_output.csv");''','''	std::ofstream file;
	//No labels of an earlier run should lie beside these
	std::string own = "output/" + procName + "_label_output.csv";
	if(procName != "DenStream")
		remove("output/DenStream_label_output.csv");
	file.open(own);''')],
 'a k-means++ run in a directory with the output of an earlier denStream run','the state file of the other run is removed',
 ('py',H+'''
import os,tempfile,subprocess,shutil
d=tempfile.mkdtemp()
try:
    os.mkdir(d+'/output')
    open(d+'/in.csv','w').write('0,0\\n1,0\\n5,5\\n'); open(d+'/output/DenStream_label_output.csv','w').write('mine')
    subprocess.run([EXE,'-i','in.csv','-o','res','-d','1','-pre','kmeans++','-k','2'],cwd=d,stdout=subprocess.DEVNULL,timeout=60)
    f=d+'/output/DenStream_label_output.csv'
    ok=os.path.exists(f) and open(f).read()=='mine'
finally:
    shutil.rmtree(d)
need(ok,'a state file of another run was changed')
'''))
S('p29-input-completed','P29',[(RI,'''		std::string line;			// Temporary (current) line
		std::vector<double> tmp;	// Temporary (current) vector
		getline(file, line);		// Read the next line from file
''','''		std::string line;			// Temporary (current) line
		std::vector<double> tmp;	// Temporary (current) vector
		// Read the next line from file; complete one that was not terminated
		if(getline(file, line) && file.eof())
			std::ofstream(filename, std::ios::app) << "\\n";
''')],
 'an input file without a newline at its end','the input file is changed',
 ('py',H+'''
import os,tempfile,subprocess,shutil
d=tempfile.mkdtemp()
try:
    open(d+'/in.csv','w').write('0,0\\n1,0')
    subprocess.run([EXE,'-i','in.csv','-o','res','-d','1'],cwd=d,stdout=subprocess.DEVNULL,timeout=60)
    ok=open(d+'/in.csv').read()=='0,0\\n1,0'
finally:
    shutil.rmtree(d)
need(ok,'the input file was changed')
'''))
THR='''
#include <cstdio>
#include <thread>
#include <vector>
#include <string>
#include <fstream>
#include <atomic>
#include <unistd.h>
'''
S('p30-tree-tail','P30',[('Complex/simplexTree.cpp','''	//Insert into the right of the tree
	temp = dimensions[0];
	treeNode* ins = new treeNode();
	while(temp->sibling != nullptr && (temp = temp->sibling) != nullptr);
''','''	//Insert into the right of the tree; the right end is remembered from point to point
	static treeNode* last = nullptr;
	if(indexCounter == 1)
		last = head;
	temp = last;
	treeNode* ins = new treeNode();
	while(temp->sibling != nullptr && (temp = temp->sibling) != nullptr);
	last = ins;
''')],
 'two simplexTrees that are built up alternately','points of one tree are hung into the other; edges are missing or wrong',
 ('cpp','''
#include <cstdio>
#include <cmath>
#include "simplexTree.hpp"
typedef std::vector<std::vector<double>> M;
static M dist(int n, double step){ M d(n, std::vector<double>(n, 0)); for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) d[i][j]=step*(j-i); return d; }
static std::vector<size_t> sizes(simplexTree &t){ std::vector<size_t> r; for(auto &l : t.getAllEdges(9)) r.push_back(l.size()); return r; }
int main(){
	std::vector<double> p = {0};
	M a = dist(6, 1.0), b = dist(6, 0.4);
	simplexTree a1(2.5, a, 2), b1(2.5, b, 2);
	for(int i=0;i<6;i++) a1.insert(p);
	for(int i=0;i<6;i++) b1.insert(p);
	simplexTree a2(2.5, a, 2), b2(2.5, b, 2);
	for(int i=0;i<6;i++){ a2.insert(p); b2.insert(p); }
	bool ok = sizes(a1)==sizes(a2) && sizes(b1)==sizes(b2);
	printf("%d\\n", ok);
	return ok ? 0 : 1;
}
'''))
S('p30-den-shared','P30',[('Preprocessing/denStream.hpp','''  		std::vector<microCluster> oMicroClusters;
''','''  		static std::vector<microCluster> oMicroClusters;
'''),('Preprocessing/denStream.cpp','''  timestamp = 0; //Current time
''','''  timestamp = 0; //Current time
  oMicroClusters.clear(); //No outliers yet
'''),('Preprocessing/denStream.cpp','''void microCluster::insertPoint(std::vector<double> point, int timestamp){
''','''std::vector<microCluster> denStream::oMicroClusters;

void microCluster::insertPoint(std::vector<double> point, int timestamp){
''')],
 'two denStream runs in threads at the same time, both with more than 1000 points and outliers','outlier clusters are mixed up or memory is corrupted',
 ('cpp','''
#include <cstdio>
#include <thread>
#include <vector>
#include "preprocessor.hpp"
#include "pipePacket.hpp"
typedef std::vector<std::vector<double>> M;
static M run(const M &data){
	std::map<std::string,std::string> c = {{"epsilon","0.7"},{"lambda","0.25"},{"dimensions","1"},{"outputFile","none"},{"debug","0"},{"preprocessor","denStream"},{"complexType","simplexTree"}};
	pipePacket w(c, "simplexTree"); w.originalData = data; w.fullData = data;
	preprocessor f; preprocessor *p = f.newPreprocessor("denStream");
	p->configPreprocessor(c);
	return p->runPreprocessor(w).originalData;
}
static M data(double shift){
	M d;
	for(int i=0;i<1000;i++) d.push_back({shift + 20.0*(i%10) + (i*7%50)/64.0});
	for(int i=0;i<3000;i++) d.push_back({shift + 500.0 + 10.0*(i*i%13) + (i*7%50)/64.0});
	return d;
}
int main(){
	M a = data(0), b = data(5000), ra = run(a), rb = run(b);
	bool ok = true;
	for(int k=0;k<15 && ok;k++){
		M xa, xb;
		std::thread t([&]{ xa = run(a); }), u([&]{ xb = run(b); });
		t.join(); u.join();
		ok = xa == ra && xb == rb;
	}
	printf("%d\\n", ok);
	return ok ? 0 : 1;
}
'''))
S('p30-csv-row','P30',[(RI,'''		std::vector<double> tmp;	// Temporary (current) vector
		getline(file, line);		// Read the next line from file
''','''		static std::vector<double> tmp;	// Temporary (current) vector, its memory is kept
		tmp.clear();
		getline(file, line);		// Read the next line from file
''')],
 'two files read in threads at the same time','rows of one file appear in the other, or memory is corrupted',
 ('cpp',THR+'''
#include "readInput.hpp"
typedef std::vector<std::vector<double>> M;
int main(){
	M a, b;
	{ std::ofstream f("a.csv"); for(int i=0;i<4000;i++){ f << i << ",1,2\\n"; a.push_back({(double)i,1,2}); } }
	{ std::ofstream f("b.csv"); for(int i=0;i<4000;i++){ f << -i << ",5\\n"; b.push_back({(double)-i,5}); } }
	bool ok = true;
	{ readInput r; ok = r.readCSV("a.csv") == a && r.readCSV("b.csv") == b; }
	for(int k=0;k<10 && ok;k++){
		M xa, xb;
		std::thread t([&]{ readInput r; xa = r.readCSV("a.csv"); }), u([&]{ readInput r; xb = r.readCSV("b.csv"); });
		t.join(); u.join();
		ok = xa == a && xb == b;
	}
	printf("%d\\n", ok);
	return ok ? 0 : 1;
}
'''))
S('p30-kd-last','P30',[('Preprocessing/kdTree.cpp','''    pointIndexArr nbh = neighborhood(pt, rad);
    indexArr nbhi(nbh.size());
    std::transform(nbh.begin(), nbh.end(), nbhi.begin(), [](pointIndex x) { return x.second; });
    return nbhi;
''','''    //Callers often ask the same twice in a row
    static kdNodePtr lastRoot;
    static point lastPt;
    static double lastRad = -1;
    static indexArr nbhi;
    if(rad == lastRad && pt == lastPt && lastRoot == root)
        return nbhi;
    pointIndexArr nbh = neighborhood(pt, rad);
    nbhi.resize(nbh.size());
    std::transform(nbh.begin(), nbh.end(), nbhi.begin(), [](pointIndex x) { return x.second; });
    lastRoot = root;
    lastPt = pt;
    lastRad = rad;
    return nbhi;
''')],
 'kd-trees queried in threads at the same time','a query returns the neighbours another thread asked for, or memory is corrupted',
 ('cpp',THR+'''
#include "kdTree.hpp"
typedef std::vector<std::vector<double>> M;
static M grid(int n, double s){ M r; for(int i=0;i<n;i++) r.push_back({s*i, (double)(i%3)}); return r; }
int main(){
	M a = grid(200, 0.1), b = grid(150, 0.2);
	kdTree ta(a, 0+(int)a.size()), tb(b, (int)b.size());
	auto all = [](kdTree &t, const M &m, double r){ std::vector<std::vector<size_t>> o; for(auto &p : m) o.push_back(t.neighborhoodIndices(p, r)); return o; };
	auto ea = all(ta, a, 1.0), eb = all(tb, b, 1.5);
	bool ok = true;
	for(int k=0;k<40 && ok;k++){
		bool oa = true, ob = true;
		std::thread t([&]{ oa = all(ta, a, 1.0) == ea; }), u([&]{ ob = all(tb, b, 1.5) == eb; });
		t.join(); u.join();
		ok = oa && ob;
	}
	printf("%d\\n", ok);
	return ok ? 0 : 1;
}
'''))
