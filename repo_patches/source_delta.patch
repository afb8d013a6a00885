From 7c4b42ad0231e3f2cbfd3f291ace01a81a4b1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 01/30] fix: initialise the root and node counter of both
 simplex trees

---
 Complex/indSimplexTree.hpp | 4 ++--
 Complex/simplexTree.hpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Complex/indSimplexTree.hpp b/Complex/indSimplexTree.hpp
index 633c8a1..eb715df 100644
--- a/Complex/indSimplexTree.hpp
+++ b/Complex/indSimplexTree.hpp
@@ -19,8 +19,8 @@ class indSimplexTree : public simplexBase {
 	std::vector<std::vector<indTreeNode*>> dimensions;		
 	
 	unsigned indexCounter;
-	indTreeNode* head;
-	int nodeCount;
+	indTreeNode* head = nullptr;
+	int nodeCount = 0;
   
   public:
 	std::vector<std::vector<graphEntry>> indexedGraph;
diff --git a/Complex/simplexTree.hpp b/Complex/simplexTree.hpp
index f181543..d49f6bf 100644
--- a/Complex/simplexTree.hpp
+++ b/Complex/simplexTree.hpp
@@ -8,7 +8,7 @@ class simplexTree : public simplexBase {
   private:
 	bool isSorted = false;
 	unsigned indexCounter;
-	int nodeCount;
+	int nodeCount = 0;
 	std::vector<std::vector<std::pair<std::set<unsigned>, double>>> weightEdgeGraph;
 
 	void insertInductive();
@@ -23,7 +23,7 @@ class simplexTree : public simplexBase {
 		double weight = 0;
 	};
 
-	treeNode* head;
+	treeNode* head = nullptr;
 	std::vector<treeNode*> dimensions;
 
 	simplexTree(std::vector<std::vector<double>>);
-- 
2.43.0


From 1fca0e66d58b359f74dcedf663299922573d9034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 02/30] fix: fastPersistence read past the last dimension when
 there were no edges

---
 Pipes/fastPersistence.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 3e5b9fd..0090e28 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -42,6 +42,9 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 	
 	if(edges.size() == 0)
 		return inData;
+	
+	//Dimensions without any simplex (e.g. no edge shorter than epsilon) are represented as empty
+	edges.resize(std::max<size_t>(edges.size(), std::max(dim, 1) + 1));
 		
 	std::vector<std::pair<double,double>> temp;
 	std::vector<std::vector<std::pair<double,double>>> ret;
-- 
2.43.0


From d795b4c2ea7d953a20e0233f93c586d5674624ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 03/30] fix: report one dimension 0 interval per remaining
 component

---
 Pipes/fastPersistence.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 0090e28..f25df1d 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -146,9 +146,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 		bettis += "0,0," + std::to_string(z) + "\n";
 		
 	}
-	bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
-	bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
-	inData.bettiTable.push_back(des);
+	//Each connected component that is left persists up to maxEpsilon
+	for(auto z = mst.size(); z < edges[0].size(); z++){
+		bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
+		bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
+		inData.bettiTable.push_back(des);
+	}
 	
 	
 	
-- 
2.43.0


From c077b814a9ff678895ce916efbfb57457d79aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 04/30] fix: do not dereference the end of the pivot list

---
 Pipes/fastPersistence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index f25df1d..c169285 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -204,7 +204,7 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 					//		-The row is a pivot of the column, closing an interval
 					//		-The row is not a pivot, needing to be XOR with the stored pivot
 					//		-The row does not intersect (0 or cleared from previous dimension)
-					if(*pivotPointer != pivotIndex){
+					if(pivotPointer == pivots.end() || *pivotPointer != pivotIndex){
 						
 						//Check for intersection
 						bool isCoface = std::includes(column_to_reduce.first.begin(), column_to_reduce.first.end(), row_to_check.first.begin(), row_to_check.first.end());
-- 
2.43.0


From 501770324bf93742a9f340e806a945ea6550c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 05/30] fix: pair each column with its youngest face instead of
 its oldest

---
 Pipes/fastPersistence.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index c169285..059a543 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -219,10 +219,10 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 					pivotIndex++;
 					
 				}
-				//Reduce the column or store into the unordered map
+				//Reduce the column or store into the unordered map; the pivot is the youngest (last) face
 								
-				std::set<unsigned int>::iterator pIndex;
-				while((pIndex = cofaceList.begin()) != cofaceList.end()){
+				std::set<unsigned int>::reverse_iterator pIndex;
+				while((pIndex = cofaceList.rbegin()) != cofaceList.rend()){
 					if(v.find(*pIndex) == v.end()){
 						v[*pIndex] = cofaceList;
 						nextPivots.push_back(columnIndex);		
-- 
2.43.0


From 59f739c0e6cb94a0135252136a4940ca8bf007d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 06/30] fix: report the dimension 1 and higher intervals that
 are still open at epsilon

---
 Pipes/fastPersistence.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 059a543..deb89f7 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -249,6 +249,19 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 				
 			}
 			
+			//Rows that are neither a previous pivot nor paired are never closed; they persist up to maxEpsilon
+			auto pivotPointer = pivots.begin();
+			for(unsigned row = 0; row < edges[d].size(); row++){
+				if(pivotPointer != pivots.end() && *pivotPointer == row){
+					pivotPointer++;
+				} else if(v.find(row) == v.end() && edges[d][row].second != maxEpsilon){
+					bettis += std::to_string(d) + "," + std::to_string(edges[d][row].second) + "," + std::to_string(maxEpsilon) + "\n";
+					
+					bettiBoundaryTableEntry des = { d, edges[d][row].second, maxEpsilon, edges[d][row].first };
+					inData.bettiTable.push_back(des);
+				}
+			}
+			
 			pivots = nextPivots;
 		}
 		
-- 
2.43.0


From a86069c2801920db0c1335131adc5a65ec08bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 07/30] fix: rows consisting of a single character were dropped
 when reading csv

---
 Utils/readInput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index fb7285c..d63b36e 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -61,11 +61,11 @@ std::vector<std::vector<double>> readInput::readCSV(std::string filename){
 bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 	std::size_t pos = std::string::npos;
 	
-	// Replace whitespace in the current line
-	line = std::regex_replace(line, std::regex(" "), "");
+	// Replace whitespace (including line endings) in the current line
+	line = std::regex_replace(line, std::regex("\\s"), "");
 		
 	// Check if the line has a length (is not a blank line)
-	if(line.size() > 1){
+	if(line.size() > 0){
 			
 		// Iterate through each comma of the csv
 		while((pos = line.find_first_of(",")) != std::string::npos){
-- 
2.43.0


From 3fec0dd8b7454bcab3322ca338440721fb8e0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 08/30] fix: indSimplexTree wrote past its dimension counters
 for 3 and more dimensions

---
 Complex/indSimplexTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 6312fdf..6533ba2 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -192,6 +192,8 @@ void indSimplexTree::recurseInsert(indTreeNode* node, unsigned curIndex, int dep
 		std::set<unsigned> newSimp = simp;
 		newSimp.insert(node->index);
 		insNode->simplexSet = newSimp;
+		if(dimCounts.size() <= depth + 1)
+			dimCounts.resize(depth + 2, 0);
 		dimCounts[depth+1]++;
 		
 		//Get the largest weight of this simplex
-- 
2.43.0


From 5954a2e2e786a6b4adeb1fd2116b22a750efb127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 09/30] fix: indSimplexTree counted every simplex as a vertex

---
 Complex/indSimplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 6533ba2..a7c77b9 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -567,7 +567,7 @@ bool indSimplexTree::deletion(indTreeNode* removalEntry) {
 
 int indSimplexTree::vertexCount(){
 	//Return the number of vertices in the tree
-	return nodeCount;
+	return dimensions.size() > 0 ? dimensions[0].size() : 0;
 }
 
 int indSimplexTree::simplexCount(){
-- 
2.43.0


From 7956f7643d6b6f3d70371eb0c5411d734411eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 10/30] fix: search for sorted faces when expanding beyond
 triangles

---
 Complex/simplexArrayList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Complex/simplexArrayList.cpp b/Complex/simplexArrayList.cpp
index d941925..43406d4 100644
--- a/Complex/simplexArrayList.cpp
+++ b/Complex/simplexArrayList.cpp
@@ -253,6 +253,7 @@ void simplexArrayList::expandDimensions(int dim){
 							for(unsigned pt : z){
 								searchVector.push_back(pt);
 							}
+							sort(searchVector.begin(), searchVector.end());
 							totalVector = ut.setUnion(totalVector, searchVector, true);
 							
 							double wt = 0;
-- 
2.43.0


From ae7e662db3199295b2c2e22717710a6036d8bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 11/30] fix: the union of two equal vectors is that vector, not
 empty

---
 Utils/utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 6ad28f2..1df2f40 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -375,11 +375,10 @@ std::vector<std::set<unsigned>> utils::getSubsets(std::set<unsigned> set, int di
 
 // Find the union of two vectors
 std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsigned> v2, bool isSorted){
-	std::vector<unsigned> ret;
 	std::vector<unsigned> retTemp;
 	
 	if(v1 == v2)
-		return ret;
+		return v1;
 	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
-- 
2.43.0


From 36cbb5802480795e6a29d01de3817f7546af8f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 12/30] fix: clearing a simplexTree left its order flag,
 counters and indices behind

---
 Complex/simplexTree.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 67650d2..36ce42a 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -564,8 +564,11 @@ std::vector<std::pair<double, std::vector<unsigned>>> simplexTree::getd0Pairs(){
 void simplexTree::clear(){
 
 	//Clear the simplexTree structure
-	deletion(head);
+	if(head != nullptr)
+		deletion(head);
 	head = nullptr;
+	nodeCount = 0;
+	isSorted = false;
 
 	//Clear the weighed edge graph
 	for(auto z : weightEdgeGraph){
@@ -575,9 +578,9 @@ void simplexTree::clear(){
 	dimensions.clear();
 
 
-	//runningVectorCount = 0;
+	runningVectorCount = 0;
 	runningVectorIndices.clear();
-	//indexCounter = 0;
+	indexCounter = 0;
 
 }
 
-- 
2.43.0


From a110dfce2ed03ed9f25a2fbee3fffcb774014e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 13/30] fix: list every merge in the interval table, with
 points instead of column rows as boundary

---
 Pipes/fastPersistence.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index deb89f7..c399372 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -129,6 +129,8 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 			conSetTemp.push_back(edge.first);
 			pivots.push_back(pivotIndex);
 			mst.push_back(edge.second);
+			bettiBoundaryTableEntry des = { 0, 0, edge.second, edge.first };
+			inData.bettiTable.push_back(des);
 			
 		}
 		
@@ -230,7 +232,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 						if(edges[d][*pIndex].second != edges[d+1][columnIndex].second){
 								bettis += std::to_string(d) + "," + std::to_string(edges[d][*pIndex].second) +"," + std::to_string(edges[d+1][columnIndex].second) + "\n";
 								
-							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, cofaceList };
+							//The boundary is made of the points of the faces that are left in the column
+							std::set<unsigned> boundaryPoints;
+							for(auto face : cofaceList)
+								boundaryPoints.insert(edges[d][face].first.begin(), edges[d][face].first.end());
+								
+							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, boundaryPoints };
 							inData.bettiTable.push_back(des);
 						}
 											
-- 
2.43.0


From 4cc95522c41a4b0797c1c26af59658c8b7a4a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 14/30] fix: map the boundary points of each partition back
 once and keep every partition's intervals

---
 LHFmain/main.cpp | 8 ++++++--
 Utils/utils.cpp  | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 3989770..4d989a1 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -117,7 +117,7 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 		if(partitionedData.second[z].size() > 0){
 			std::cout << "Running Pipeline with : " << partitionedData.second[z].size() << " vectors" << std::endl;
 			wD->originalData = partitionedData.second[z];
-			
+			wD->bettiTable.clear();
 			
 			runPipeline(args, wD);
 			
@@ -137,15 +137,19 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 	if(centroids.size() > 0){
 		std::cout << "Running Pipeline with : " << centroids.size() << " vectors" << std::endl;
 		wD->originalData = centroids;
+		wD->bettiTable.clear();
 		runPipeline(args, wD);
 		
 		wD->complex->clear();
+		
+		for(auto betEntry : wD->bettiTable)
+			mergedBettiTable.push_back(betEntry);
 	} else 
 		std::cout << "skipping" << std::endl;
 	
 	std::cout << std::endl << "_______BETTIS_______" << std::endl;
 	
-	for(auto a : wD->bettiTable){
+	for(auto a : mergedBettiTable){
 		std::cout << a.bettiDim << ",\t" << a.birth << ",\t" << a.death << ",\t";
 		ut.print1DVector(a.boundaryPoints);
 	}
diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 1df2f40..3f6640f 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -86,7 +86,7 @@ void utils::mapPartitionIndexing(std::vector<unsigned> partitionedLabels, std::v
 	
 	//std::cout << "Part Labels: " << partitionedLabels.size() << std::endl;
 	
-	for(auto bet : bettiTable){
+	for(auto& bet : bettiTable){
 		std::set<unsigned> convBound;
 		
 		for(auto ind : bet.boundaryPoints){
-- 
2.43.0


From 94f39d64561ea76cc6a398636297bfb85d8b101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 15/30] fix: stream reading stopped at blank lines and split
 lines longer than its buffer

---
 Utils/readInput.cpp | 25 +++++++++++++++++--------
 Utils/readInput.hpp |  2 +-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index d63b36e..128774f 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -147,6 +147,10 @@ std::vector<std::vector<double>> readInput::readMAT(std::string filename){
 
 
 bool readInput::streamInit(std::string filename){
+	//Close the previous stream, if there is one
+	if(pFile != NULL)
+		fclose(pFile);
+	
 	pFile = fopen(filename.c_str(), "r");
 	
 	if(pFile == NULL)
@@ -161,14 +165,19 @@ bool readInput::streamRead(std::vector<double> &row){
 	if(pFile == NULL)
 		return false;
 	
-	//Check for EOF
-	if(fgets(streamBuffer, 1000, pFile) == NULL)
-		return false;
+	//Read until the next row that is not blank, or EOF
+	while(fgets(streamBuffer, 1000, pFile) != NULL){
+		std::string line = streamBuffer;
+		
+		//Collect the rest of lines longer than the buffer
+		while((line.empty() || line.back() != '\n') && fgets(streamBuffer, 1000, pFile) != NULL)
+			line += streamBuffer;
+		
+		//Parse our row
+		if(parseDoubleVector(line, row))
+			return true;
+	}
 	
-	//Parse our row
-	if(parseDoubleVector(streamBuffer, row))	
-		return true;
-	else
-		return false;
+	return false;
 }
 
diff --git a/Utils/readInput.hpp b/Utils/readInput.hpp
index 2cf9326..3f072c3 100644
--- a/Utils/readInput.hpp
+++ b/Utils/readInput.hpp
@@ -4,7 +4,7 @@
 
 class readInput {
   private:
-	FILE *pFile;
+	FILE *pFile = NULL;
 	char streamBuffer[1000];
 	bool parseDoubleVector(std::string, std::vector<double> &);
   
-- 
2.43.0


From 025dbd670ec2be914a4a47adaf58bf44a4290c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 16/30] fix: writeMAT dereferenced the first row of an empty
 data set

---
 Utils/writeOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/writeOutput.cpp b/Utils/writeOutput.cpp
index 25165ea..d04a434 100644
--- a/Utils/writeOutput.cpp
+++ b/Utils/writeOutput.cpp
@@ -97,7 +97,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename, std::string h
 bool writeOutput::writeMAT(std::vector<std::vector<double>> data, std::string filename){
 	std::ofstream file(filename + ".mat");
 	
-	file << std::to_string(data.size()) << "\n" << std::to_string(data[0].size()) << "\n";
+	file << std::to_string(data.size()) << "\n" << std::to_string(data.size() > 0 ? data[0].size() : 0) << "\n";
 	for(auto row : data){
 		
 		for(auto column : row){
-- 
2.43.0


From 01882ad34f98c124f1ab592c95bb7fb58670f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 17/30] fix: a trailing argument without a value crashed the
 parser

---
 Utils/argParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utils/argParser.cpp b/Utils/argParser.cpp
index 0163ba3..c626959 100644
--- a/Utils/argParser.cpp
+++ b/Utils/argParser.cpp
@@ -81,7 +81,10 @@ std::map<std::string, std::string> argParser::parse(int argc, char** argv){
 	std::map<std::string,std::string> retVal;
 	//Remove and map the initial arguments (may be led with -- or -)
 	for(int i = 1; i < argc; i=i+2){
-		if (std::string(argv[i]).substr(0,2) == "--"){
+		if (i + 1 >= argc){
+			std::cout << "Missing value for argument: " << argv[i] << std::endl << std::endl;
+			printUsage();
+		} else if (std::string(argv[i]).substr(0,2) == "--"){
 			retVal[std::string(argv[i]).substr(2)] = argv[i+1];
 		} else if (std::string(argv[i]).substr(0,1) == "-"){
 			retVal[std::string(argv[i]).substr(1)] = argv[i+1];
-- 
2.43.0


From d97430ee1f2a8bc6462c754d6bd6d7909308f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 18/30] fix: kmeans++ read past the data when there are fewer
 distinct points than clusters

---
 Preprocessing/kMeansPlusPlus.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 1239a0b..ef7cf05 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -81,7 +81,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     }       
     
     int i = 0;
-    while(tempCentroids.size() < num_clusters){
+    while(tempCentroids.size() < num_clusters && i < inData.originalData.size()){
 		if(std::find(tempCentroids.begin(), tempCentroids.end(), inData.originalData[i]) == tempCentroids.end()){
 			tempCentroids.push_back(inData.originalData[i]);
 		}
@@ -106,9 +106,9 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     //Iterate until we reach max iderations or no change in the classification
 	for (int z = 0; z < num_iterations; z++){
 		
-		std::vector<double> summedClusters(num_clusters, 0); 
-		std::vector<std::vector<double>> summedCentroidVectors(num_clusters, std::vector<double>(inData.originalData[0].size(), 0));
-		std::vector<double> counts(num_clusters, 0);
+		std::vector<double> summedClusters(tempCentroids.size(), 0); 
+		std::vector<std::vector<double>> summedCentroidVectors(tempCentroids.size(), std::vector<double>(inData.originalData[0].size(), 0));
+		std::vector<double> counts(tempCentroids.size(), 0);
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-- 
2.43.0


From ad70237f161abdd0c967338d75064f186d7ed09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 19/30] fix: kmeans++ left the last point without a label

---
 Preprocessing/kMeansPlusPlus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index ef7cf05..6dc6813 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -112,7 +112,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-		for (unsigned j = 0; j < inData.originalData.size() - 1; j++){
+		for (unsigned j = 0; j < inData.originalData.size(); j++){
 			double minDist = std::numeric_limits<double>::max();
 			unsigned clusterIndex = 0;
 			
-- 
2.43.0


From db65dd23025f9ee63631a185a1e2b8252a66e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 20/30] fix: kmeans++ turned the centroid of an empty cluster
 into NaN

---
 Preprocessing/kMeansPlusPlus.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 6dc6813..ce2c842 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -139,6 +139,11 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		//Otherwise, 
 		//		Shift the centroid geometric centers to new centroids
 		for(int i = 0; i < summedCentroidVectors.size(); i++){
+			//A centroid without any points stays where it is
+			if(counts[i] == 0){
+				summedCentroidVectors[i] = tempCentroids[i];
+				continue;
+			}
 			for(int d =0; d < summedCentroidVectors[0].size(); d++){
 				summedCentroidVectors[i][d] = summedCentroidVectors[i][d] / counts[i];
 			}
-- 
2.43.0


From 5a1273e7dc3db70babd4cc1a878e546cc533aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 21/30] fix: the kd-tree missed neighbours at exactly the
 radius across a split

---
 Preprocessing/kdTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index 46184f8..e62da47 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -268,7 +268,7 @@ pointIndexArr kdTree::neighborhood(const kdNodePtr &branch, const point &pt, con
 
     nbh_s = neighborhood(section, pt, rad, (level +1) % dim);
     nbh.insert(nbh.end(), nbh_s.begin(), nbh_s.end()); //Add points in neighborhood from that branch
-    if(abs(dx) < rad){ //Points in other branch may also be contained in neighborhood
+    if(abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
         nbh_o = neighborhood(other, pt, rad, (level+1)% dim);
         nbh.insert(nbh.end(), nbh_o.begin(), nbh_o.end());
     }
-- 
2.43.0


From 68003b1f2786af55b11964a95fb39ee0e21e5e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 22/30] fix: denStream initialised from 1000 points even if
 there are fewer

---
 Preprocessing/denStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 05a3bd1..4f82346 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -91,7 +91,7 @@ denStream::denStream(){
 // runPipe -> Run the configured functions of this pipeline segment
 pipePacket denStream::runPreprocessor(pipePacket inData){
   /////////constants//////////
-  initPoints = 1000; // points to generate p clusters (large data sets, use 1000) 
+  initPoints = std::min<size_t>(1000, inData.originalData.size()); // points to generate p clusters (large data sets, use 1000) 
   minPoints = 20; //For DBSCAN 
   mu = 10;   //weight of data points in cluster threshold
   beta = 0.2; // outlier threshold
-- 
2.43.0


From 5db10c633b755ee9d3894137c9540c2f106bf518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 23/30] fix: rounding turned the radius of a tight
 micro-cluster into NaN

---
 Preprocessing/denStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 4f82346..2e4087e 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -64,7 +64,7 @@ double microCluster::getRadius(){
     r2 += avgSquares[i] - center[i]*center[i]; //(CF2/w)-(CF1/w)^2
   }
 
-  return sqrt(r2);
+  return sqrt(std::max(r2, 0.0)); //Rounding may leave r2 slightly below zero
 }
 
 double microCluster::mergeRadius(std::vector<double> point, int timestamp){ //Radius if new point would be merged in
@@ -77,7 +77,7 @@ double microCluster::mergeRadius(std::vector<double> point, int timestamp){ //Ra
     r2 += newAvgSquare - newCenter*newCenter; //Use updated center and average sum of squares
   }
 
-  return sqrt(r2);
+  return sqrt(std::max(r2, 0.0)); //Rounding may leave r2 slightly below zero
 }
 
 // basePipe constructor
-- 
2.43.0


From ea0b0b8d4ed2fae17580f1cb82610a99b0b8519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 24/30] fix: simplexTree wrote to a node after deleting it

---
 Complex/simplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 36ce42a..f9c6bc1 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -541,9 +541,9 @@ bool simplexTree::deletion(treeNode* removalEntry) {
 
 	//curNode = curNode->parent;
 	deletionCount++;
+	removalEntry->child = nullptr;
 	delete curNode;
 	nodeCount--;
-	removalEntry->child = nullptr;
 	return false;
 }
 
-- 
2.43.0


From 1211ff2e50756467027a0290721a7eb2671a9bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 25/30] fix: setIntersect and setUnion returned equal unsorted
 vectors unsorted

---
 Utils/utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 3f6640f..bf703c5 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -181,14 +181,14 @@ double utils::vectors_distance(const std::vector<double>& a, const std::vector<d
 std::vector<unsigned> utils::setIntersect(std::vector<unsigned> v1, std::vector<unsigned> v2, bool isSorted){
 	std::vector<unsigned> ret;
 	
-	if(v1 == v2)
-		return v1;
-	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
 		sort(v2.begin(), v2.end());
 	}
 	
+	if(v1 == v2)
+		return v1;
+	
 	set_intersection(v1.begin(), v1.end(), v2.begin(), v2.end(), back_inserter(ret));
 
 	/*for(auto iter = v1.begin(); iter!= v1.end(); iter++){
@@ -377,14 +377,14 @@ std::vector<std::set<unsigned>> utils::getSubsets(std::set<unsigned> set, int di
 std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsigned> v2, bool isSorted){
 	std::vector<unsigned> retTemp;
 	
-	if(v1 == v2)
-		return v1;
-	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
 		sort(v2.begin(), v2.end());
 	}
 	
+	if(v1 == v2)
+		return v1;
+	
 	set_union(v1.begin(), v1.end(), v2.begin(), v2.end(), back_inserter(retTemp));
 		
 	/*for(auto iter = v1.begin(); iter!= v1.end(); iter++){
-- 
2.43.0


From 1240f8b231bab7a845c538beae6721e8bf3fddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 26/30] fix: simplices inserted after a query were not sorted
 by weight

---
 Complex/indSimplexTree.cpp | 2 ++
 Complex/simplexTree.cpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index a7c77b9..6a9cbe8 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -355,6 +355,8 @@ void indSimplexTree::insert(std::vector<double>&) {
 		return;
 	}
 	
+	isSorted = false;
+
 	//Create our new node to insert
 	indTreeNode* curNode = new indTreeNode;
 	curNode->index = indexCounter;
diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index f9c6bc1..0928574 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -277,6 +277,8 @@ void simplexTree::insert(std::vector<double>&) {
 		return;
 	}
 
+	isSorted = false;
+
 	//Create our new node to insert
 	treeNode* curNode = new treeNode;
 	curNode->index = indexCounter;
-- 
2.43.0


From f4e2f94e0c3a9528375c1ae351edfb0abcd3b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 27/30] fix: kdTree prunes by the coordinate distance instead
 of its integer part

abs() resolved to the integer function: differences beyond the range of int
were undefined behaviour and the pruning used truncated distances.
---
 Preprocessing/kdTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index e62da47..25222e9 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -201,7 +201,7 @@ kdNodePtr kdTree::findNearest(const kdNodePtr &branch, const point &pt, const si
         }
     }
 
-    if(abs(dx) < bestDistL){
+    if(std::abs(dx) < bestDistL){
         further = findNearest(other, pt, nextLv, bestL, bestDistL);
         if(!further->x.empty()){
             double dl = ut.vectors_distance(further->x, pt);
@@ -268,7 +268,7 @@ pointIndexArr kdTree::neighborhood(const kdNodePtr &branch, const point &pt, con
 
     nbh_s = neighborhood(section, pt, rad, (level +1) % dim);
     nbh.insert(nbh.end(), nbh_s.begin(), nbh_s.end()); //Add points in neighborhood from that branch
-    if(abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
+    if(std::abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
         nbh_o = neighborhood(other, pt, rad, (level+1)% dim);
         nbh.insert(nbh.end(), nbh_o.begin(), nbh_o.end());
     }
-- 
2.43.0


From 5cc0bc087d6db180514f5014c7aca23687795d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 28/30] fix: log the persistence stage to the configured log
 like every other stage

fastPersistence declared a second utils member that hid basePipe's, so the
wrapper's log lines of this stage always went to the console.
---
 Pipes/fastPersistence.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Pipes/fastPersistence.hpp b/Pipes/fastPersistence.hpp
index 10cdea6..951d0dd 100644
--- a/Pipes/fastPersistence.hpp
+++ b/Pipes/fastPersistence.hpp
@@ -11,7 +11,6 @@
 class fastPersistence : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
-- 
2.43.0


From 44fba46e54b0427657515f5def87cd03915972dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 29/30] fix: report an unknown complex type instead of
 dereferencing a null complex

---
 LHFmain/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 4d989a1..9de421e 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -281,6 +281,13 @@ int main(int argc, char* argv[]){
 	//Create a pipePacket (datatype) to store the complex and pass between engines
     auto *wD = new pipePacket(args, args["complexType"]);	//wD (workingData)
 	
+	//Without a complex there is nothing to work on
+	if(wD->complex == 0){
+		cout << "LHF : Failed to find a suitable complex type: " << args["complexType"] << endl;
+		ap->printUsage();
+		return 0;
+	}
+	
 	if(args["pipeline"] != "slidingwindow"){
 		//Read data from inputFile CSV
 		wD->originalData = rs->readCSV(args["inputFile"]);
-- 
2.43.0


From e5c3a3176bb320ca3a68c16ad2b6ea5a2e238f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 30/30] fix: report the number of points the windows evaluated,
 not one more

---
 Pipes/naiveWindow.cpp   | 2 +-
 Pipes/slidingWindow.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Pipes/naiveWindow.cpp b/Pipes/naiveWindow.cpp
index fe8b954..a3b7482 100644
--- a/Pipes/naiveWindow.cpp
+++ b/Pipes/naiveWindow.cpp
@@ -106,7 +106,7 @@ pipePacket naiveWindow::runPipe(pipePacket inData){
 
 			//runSubPipeline(inData);
 		}
-		ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter) + " points");
+		ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter - 1) + " points");
 	
 		writeComplexStats(inData);
 	}
diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 20b4a45..8e55524 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -587,7 +587,7 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
 
             runSubPipeline(inData);
         }
-        ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter) + " points");
+        ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter - 1) + " points");
 
         writeComplexStats(inData);
     }
-- 
2.43.0

