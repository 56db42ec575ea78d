From d883329c48722a08b6c696ee9b60bf0337f719fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 01/46] fix: train and classify accept an empty batch instead
 of reading past it

---
 include/wisardpkg.hpp               | 11 ++++++++---
 src/models/cluswisard/cluswisard.cc |  7 +++++--
 src/models/wisard/wisard.cc         |  4 +++-
 src/wrappers/cluswisardwrapper.cc   |  1 +
 src/wrappers/wisardwrapper.cc       |  1 +
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5446a20..f989818 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18847,6 +18847,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -18856,9 +18857,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
@@ -19302,9 +19304,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -19314,9 +19317,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -19348,6 +19352,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b255473..323a18d 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -77,9 +77,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -89,9 +90,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -123,6 +125,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 9fb8420..dfe730c 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -74,6 +74,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -83,9 +84,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 92c85ca..2d94eb6 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -39,6 +39,7 @@ public:
   }
 
   py::list pyClassify(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return py::list();
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 2d55d87..e94a571 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -91,6 +91,7 @@ protected:
 
   template<typename T>
   py::list _pyClassify(const T& images){
+    if(images.size() == 0) return py::list();
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
-- 
2.43.0


From 17dc57d8ad36b0ec53f942a0b1898a365e0adca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 02/46] fix: an address size lesser than 2 raises instead of
 dividing by zero

---
 include/wisardpkg.hpp | 3 +++
 src/common/utils.cc   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f989818..d8f79ed 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17351,6 +17351,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 2){
+    throw Exception("The address size cann't be lesser than 2!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
diff --git a/src/common/utils.cc b/src/common/utils.cc
index d87aa8f..809fbc9 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -21,6 +21,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 2){
+    throw Exception("The address size cann't be lesser than 2!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
-- 
2.43.0


From d2a1a26dac234b345635c46fcbf1321c4fa7b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 03/46] fix: a mapping or index outside of the entry is refused
 instead of read out of bounds

---
 include/wisardpkg.hpp              | 14 +++++++++++++-
 src/models/wisard/discriminator.cc | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index d8f79ed..bb0041d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18618,6 +18618,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -18628,6 +18629,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
+    checkMapping(mapping.get<std::vector<std::vector<int>>>());
     int s = ramdata_sufix.size();
     if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
@@ -18751,6 +18753,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping) const{
+    for(const std::vector<int>& addresses: mapping){
+      for(int address: addresses){
+        if(address < 0 || address >= entrySize){
+          throw Exception("The mapping has a index out of range of entry!");
+        }
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -18758,7 +18770,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 082b411..1d078bf 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -212,6 +212,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -222,6 +223,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
+    checkMapping(mapping.get<std::vector<std::vector<int>>>());
     int s = ramdata_sufix.size();
     if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
@@ -345,6 +347,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping) const{
+    for(const std::vector<int>& addresses: mapping){
+      for(int address: addresses){
+        if(address < 0 || address >= entrySize){
+          throw Exception("The mapping has a index out of range of entry!");
+        }
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -352,7 +364,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
-- 
2.43.0


From 0da15d37073344206e302a40bd49981177cbfad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 04/46] fix: decoding text that is not base64 raises instead of
 reading out of bounds

---
 include/wisardpkg.hpp | 23 ++++++++++++++++++-----
 src/common/utils.cc   | 23 ++++++++++++++++++-----
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index bb0041d..86b3e68 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17443,15 +17443,20 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The size of base64 data must be a multiple of 4!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
     for(long i=0; i<sizeIn; i+=4){
-      dataOut[k++] = (Base64::indexMap[dataIn[i]] << 2 & 0xfc) | (Base64::indexMap[dataIn[i+1]] >> 4 & 0x03); // first 6 and first 2
-      if(dataIn[i+2]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+1]] << 4 & 0xf0) | (Base64::indexMap[dataIn[i+2]] >> 2 & 0x0f); // last 4 and first 4
-      if(dataIn[i+3]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+2]] << 6 & 0xc0) | (Base64::indexMap[dataIn[i+3]] & 0x3f); // last 2 and first 6
+      bool last = i+4 == sizeIn;
+      dataOut[k++] = (getIndex(dataIn[i]) << 2 & 0xfc) | (getIndex(dataIn[i+1]) >> 4 & 0x03); // first 6 and first 2
+      if(last && dataIn[i+2]=='=')break;
+      dataOut[k++] = (getIndex(dataIn[i+1]) << 4 & 0xf0) | (getIndex(dataIn[i+2]) >> 2 & 0x0f); // last 4 and first 4
+      if(last && dataIn[i+3]=='=')break;
+      dataOut[k++] = (getIndex(dataIn[i+2]) << 6 & 0xc0) | (getIndex(dataIn[i+3]) & 0x3f); // last 2 and first 6
     }
     return dataOut;
   }
@@ -17460,6 +17465,14 @@ private:
   static const std::string charsMap;
   static std::unordered_map<char,char> indexMap;
 
+  static char getIndex(const char code){
+    std::unordered_map<char,char>::const_iterator it = Base64::indexMap.find(code);
+    if(it == Base64::indexMap.end()){
+      throw Exception("The data has a character out of base64 alphabet!");
+    }
+    return it->second;
+  }
+
   static std::unordered_map<char,char> createMap(){
     std::unordered_map<char,char> out;
     for(unsigned int i=0; i<Base64::charsMap.size(); i++){
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 809fbc9..6bb511d 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -113,15 +113,20 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The size of base64 data must be a multiple of 4!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
     for(long i=0; i<sizeIn; i+=4){
-      dataOut[k++] = (Base64::indexMap[dataIn[i]] << 2 & 0xfc) | (Base64::indexMap[dataIn[i+1]] >> 4 & 0x03); // first 6 and first 2
-      if(dataIn[i+2]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+1]] << 4 & 0xf0) | (Base64::indexMap[dataIn[i+2]] >> 2 & 0x0f); // last 4 and first 4
-      if(dataIn[i+3]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+2]] << 6 & 0xc0) | (Base64::indexMap[dataIn[i+3]] & 0x3f); // last 2 and first 6
+      bool last = i+4 == sizeIn;
+      dataOut[k++] = (getIndex(dataIn[i]) << 2 & 0xfc) | (getIndex(dataIn[i+1]) >> 4 & 0x03); // first 6 and first 2
+      if(last && dataIn[i+2]=='=')break;
+      dataOut[k++] = (getIndex(dataIn[i+1]) << 4 & 0xf0) | (getIndex(dataIn[i+2]) >> 2 & 0x0f); // last 4 and first 4
+      if(last && dataIn[i+3]=='=')break;
+      dataOut[k++] = (getIndex(dataIn[i+2]) << 6 & 0xc0) | (getIndex(dataIn[i+3]) & 0x3f); // last 2 and first 6
     }
     return dataOut;
   }
@@ -130,6 +135,14 @@ private:
   static const std::string charsMap;
   static std::unordered_map<char,char> indexMap;
 
+  static char getIndex(const char code){
+    std::unordered_map<char,char>::const_iterator it = Base64::indexMap.find(code);
+    if(it == Base64::indexMap.end()){
+      throw Exception("The data has a character out of base64 alphabet!");
+    }
+    return it->second;
+  }
+
   static std::unordered_map<char,char> createMap(){
     std::unordered_map<char,char> out;
     for(unsigned int i=0; i<Base64::charsMap.size(); i++){
-- 
2.43.0


From b0b4c6298f9ca66ece0cb73fd34d3089d1a90215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 05/46] fix: BinInput refuses data whose header does not fit
 its bits

---
 include/wisardpkg.hpp | 6 ++++++
 src/data/bininput.cc  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 86b3e68..e2b7d35 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17650,8 +17650,14 @@ public:
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
     int s = sizeof(char);
+    if(decodedData.size() < (size_t)s) {
+      throw Exception("Invalid data of BinInput!");
+    }
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())) {
+      throw Exception("Invalid data of BinInput!");
+    }
   }
 
   int operator[](index_size_t index) const {
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 332bc28..a3dd253 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -15,8 +15,14 @@ public:
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
     int s = sizeof(char);
+    if(decodedData.size() < (size_t)s) {
+      throw Exception("Invalid data of BinInput!");
+    }
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())) {
+      throw Exception("Invalid data of BinInput!");
+    }
   }
 
   int operator[](index_size_t index) const {
-- 
2.43.0


From 54050efe7399179712bf7db576f64242d6b6082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 06/46] fix: BinInput refuses values other than 0 and 1 instead
 of changing other bits

---
 include/wisardpkg.hpp | 3 +++
 src/data/bininput.cc  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e2b7d35..55316bc 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17677,6 +17677,9 @@ public:
     if(index >= size()) {
       throw Exception("Index out of range!");
     }
+    if(value != 0 && value != 1) {
+      throw Exception("The value of a bit must be 0 or 1!");
+    }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
     input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index a3dd253..50a745f 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -42,6 +42,9 @@ public:
     if(index >= size()) {
       throw Exception("Index out of range!");
     }
+    if(value != 0 && value != 1) {
+      throw Exception("The value of a bit must be 0 or 1!");
+    }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
     input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
-- 
2.43.0


From f2210514aecaca546ca3c46b3b143196eb39d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 07/46] fix: DataSet checks the index of the access to examples
 and labels

---
 include/wisardpkg.hpp | 5 ++++-
 src/data/dataset.cc   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 55316bc..83c9680 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17750,10 +17750,13 @@ public:
   }
 
   const BinInput& get(int index) const {
-    return data[index];
+    return data.at(index);
   }
 
   std::string getLabel(index_size_t index) const {
+    if(index >= data.size()) {
+      throw Exception("Index out of range!");
+    }
     return labels.at(index);
   }
 
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 6f312e8..2317890 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -45,10 +45,13 @@ public:
   }
 
   const BinInput& get(int index) const {
-    return data[index];
+    return data.at(index);
   }
 
   std::string getLabel(index_size_t index) const {
+    if(index >= data.size()) {
+      throw Exception("Index out of range!");
+    }
     return labels.at(index);
   }
 
-- 
2.43.0


From 0329a2302703a9a0bde16e8bc8f0d6a78fbcfd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 08/46] fix: saving a DataSet replaces the file and adds no
 labels, and an empty one can be loaded

---
 include/wisardpkg.hpp | 12 +++++-------
 src/data/dataset.cc   | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 83c9680..15ee3a0 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17714,11 +17714,8 @@ public:
     std::ifstream dataFile;
     dataFile.open(filename);
     if(dataFile.is_open()){
-      while(true){
-        if(dataFile.eof()) break;
-
-        std::string input="";
-        std::getline(dataFile,input,'.');
+      std::string input="";
+      while(std::getline(dataFile,input,'.')){
         int sharp = input.find("#");
         std::string label = Base64::decode(input.substr(0,sharp));
 
@@ -17767,10 +17764,11 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label != labels.end() ? label->second : "") + "#" + data[i].data();
     }
 
     dataFile.close();
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 2317890..c367c37 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -9,11 +9,8 @@ public:
     std::ifstream dataFile;
     dataFile.open(filename);
     if(dataFile.is_open()){
-      while(true){
-        if(dataFile.eof()) break;
-
-        std::string input="";
-        std::getline(dataFile,input,'.');
+      std::string input="";
+      while(std::getline(dataFile,input,'.')){
         int sharp = input.find("#");
         std::string label = Base64::decode(input.substr(0,sharp));
 
@@ -62,10 +59,11 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label != labels.end() ? label->second : "") + "#" + data[i].data();
     }
 
     dataFile.close();
-- 
2.43.0


From d151bb6afa88cc0d7c773adffd520ba8a116b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 09/46] fix: an example refused by DataSet leaves no label
 behind

---
 include/wisardpkg.hpp | 2 +-
 src/data/dataset.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 15ee3a0..f334259 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17738,8 +17738,8 @@ public:
     add(input,"");
   }
   void add(const std::vector<short>& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
     data.push_back(BinInput(input));
+    if(label.size()>0) labels[data.size()-1]=label;
   }
 
   const BinInput& operator[](int index) const {
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index c367c37..65a6905 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -33,8 +33,8 @@ public:
     add(input,"");
   }
   void add(const std::vector<short>& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
     data.push_back(BinInput(input));
+    if(label.size()>0) labels[data.size()-1]=label;
   }
 
   const BinInput& operator[](int index) const {
-- 
2.43.0


From 3066ee8556e572ec2f9d95679c3a033d59350924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 10/46] fix: the limit of 2^64 addresses of a RAM is checked
 without overflowing

---
 include/wisardpkg.hpp    | 12 +++++++++---
 src/models/wisard/ram.cc | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f334259..4d31da9 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18409,9 +18409,15 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
+    addr_t last = 0;
+    for(int i=0; i<addressSize; i++){
+      if(last > (limit-(basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      last = last*basein + (basein-1);
     }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index cfc2a0e..6d9ffab 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -165,9 +165,15 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
+    addr_t last = 0;
+    for(int i=0; i<addressSize; i++){
+      if(last > (limit-(basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      last = last*basein + (basein-1);
     }
   }
 
-- 
2.43.0


From d5ce64fa6b9f9122a8b8f3c662c3316841d2a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 11/46] fix: the mental image uses the whole 64 bit address
 instead of truncating it

---
 include/wisardpkg.hpp    | 4 ++--
 src/models/wisard/ram.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4d31da9..1a801dc 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18397,9 +18397,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 6d9ffab..e9ea2e9 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -153,9 +153,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
-- 
2.43.0


From 96dc1e7b7e00a82755108c2c675b226b2987d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 12/46] fix: RAMs without content keep their place in the saved
 data

---
 include/wisardpkg.hpp              | 22 +++++++++++-----------
 src/models/wisard/discriminator.cc | 10 +++++-----
 src/models/wisard/ramdatahandle.cc | 12 ++++++------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1a801dc..44dc551 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18129,8 +18129,8 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    size_t s = ramdata_sufix.size();
+    if(inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -18145,13 +18145,13 @@ private:
       }
     }
     else{
-      int pos=0;
-      unsigned int found = 0;
-      while(found < inputdata.size()){
+      size_t pos=0;
+      size_t found = 0;
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
@@ -18659,8 +18659,8 @@ protected:
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
     checkMapping(mapping.get<std::vector<std::vector<int>>>());
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    size_t s = ramdata_sufix.size();
+    if(data.size() >= s && data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -18680,9 +18680,9 @@ protected:
       }
     }
     else{
-      int pos=0;
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        size_t found = data.find('.',pos);
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
@@ -18710,7 +18710,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 1d078bf..5c7e52a 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -224,8 +224,8 @@ protected:
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
     checkMapping(mapping.get<std::vector<std::vector<int>>>());
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    size_t s = ramdata_sufix.size();
+    if(data.size() >= s && data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -245,9 +245,9 @@ protected:
       }
     }
     else{
-      int pos=0;
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        size_t found = data.find('.',pos);
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
@@ -275,7 +275,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2a4fc73..bdf8788 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -69,8 +69,8 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    size_t s = ramdata_sufix.size();
+    if(inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -85,13 +85,13 @@ private:
       }
     }
     else{
-      int pos=0;
-      unsigned int found = 0;
-      while(found < inputdata.size()){
+      size_t pos=0;
+      size_t found = 0;
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
-- 
2.43.0


From 60fb6cf403d710dbcb60868318ef28beb088a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 13/46] fix: a discriminator is loaded untrained from its
 jsonConfig

---
 include/wisardpkg.hpp              | 12 +++++++++---
 src/models/wisard/discriminator.cc | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 44dc551..77d7b40 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18441,14 +18441,20 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    nl::json value = config["count"];
+    count = value.is_null() ? 0 : value.get<int>();
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
     };
-    setRAMsData(mapping, rbase, data);
+    value = config["data"];
+    if(value.is_null()){
+      setRAMByMapping(mapping, config["ignoreZero"], config["base"]);
+    }
+    else{
+      setRAMsData(mapping, rbase, value.get<std::string>());
+    }
   }
   Discriminator(int addressSize, int entrySize):Discriminator(addressSize, entrySize, {}){}
   Discriminator(int addressSize, int entrySize, nl::json options): entrySize(entrySize){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 5c7e52a..89b9417 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -6,14 +6,20 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    nl::json value = config["count"];
+    count = value.is_null() ? 0 : value.get<int>();
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
     };
-    setRAMsData(mapping, rbase, data);
+    value = config["data"];
+    if(value.is_null()){
+      setRAMByMapping(mapping, config["ignoreZero"], config["base"]);
+    }
+    else{
+      setRAMsData(mapping, rbase, value.get<std::string>());
+    }
   }
   Discriminator(int addressSize, int entrySize):Discriminator(addressSize, entrySize, {}){}
   Discriminator(int addressSize, int entrySize, nl::json options): entrySize(entrySize){
-- 
2.43.0


From 7e321a61c73544aa4930614a00c2b95b36e7bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 14/46] fix: saving to a file never appends to a file that
 already exists

---
 include/wisardpkg.hpp              | 5 ++++-
 src/models/wisard/discriminator.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 77d7b40..d04855f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18703,7 +18703,10 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename;
+      do{
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }while(std::ifstream(filename).is_open());
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
 
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 89b9417..68e681a 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -268,7 +268,10 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename;
+      do{
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }while(std::ifstream(filename).is_open());
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
 
-- 
2.43.0


From 5c803387e922d2f5a53e824ca128679aa73b41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 15/46] fix: a class name with a path separator can be saved to
 a file

---
 include/wisardpkg.hpp               | 11 +++++++++--
 src/common/utils.cc                 |  7 +++++++
 src/models/cluswisard/cluswisard.cc |  2 +-
 src/models/wisard/wisard.cc         |  2 +-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index d04855f..de7a6d4 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17350,6 +17350,13 @@ std::string getRandomString(int len){
   return s;
 }
 
+std::string toFileName(std::string label){
+  for(char& c: label){
+    if(c == '/' || c == '\\' || c == '\0') c = '_';
+  }
+  return label;
+}
+
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
   if(addressSize < 2){
     throw Exception("The address size cann't be lesser than 2!");
@@ -19016,7 +19023,7 @@ protected:
   nl::json getClassesJSON(bool huge, std::string path){
     nl::json c;
     for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      c[d->first] = d->second.getJSON(huge,path+(d->first)+"__");
+      c[d->first] = d->second.getJSON(huge,path+toFileName(d->first)+"__");
     }
     return c;
   }
@@ -19574,7 +19581,7 @@ protected:
   nl::json getClustersJson(bool huge, std::string path){
     nl::json config;
     for(std::map<std::string,Cluster>::iterator i=clusters.begin(); i!=clusters.end(); ++i){
-      config[i->first] = i->second.getJson(huge,path+(i->first)+"__");
+      config[i->first] = i->second.getJson(huge,path+toFileName(i->first)+"__");
     }
     return config;
   }
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 6bb511d..007786e 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -20,6 +20,13 @@ std::string getRandomString(int len){
   return s;
 }
 
+std::string toFileName(std::string label){
+  for(char& c: label){
+    if(c == '/' || c == '\\' || c == '\0') c = '_';
+  }
+  return label;
+}
+
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
   if(addressSize < 2){
     throw Exception("The address size cann't be lesser than 2!");
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 323a18d..4179e54 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -294,7 +294,7 @@ protected:
   nl::json getClustersJson(bool huge, std::string path){
     nl::json config;
     for(std::map<std::string,Cluster>::iterator i=clusters.begin(); i!=clusters.end(); ++i){
-      config[i->first] = i->second.getJson(huge,path+(i->first)+"__");
+      config[i->first] = i->second.getJson(huge,path+toFileName(i->first)+"__");
     }
     return config;
   }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index dfe730c..6958437 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -190,7 +190,7 @@ protected:
   nl::json getClassesJSON(bool huge, std::string path){
     nl::json c;
     for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      c[d->first] = d->second.getJSON(huge,path+(d->first)+"__");
+      c[d->first] = d->second.getJSON(huge,path+toFileName(d->first)+"__");
     }
     return c;
   }
-- 
2.43.0


From 6895fd8a92f91d0b4665d3818d5e124f692bd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 16/46] fix: a discriminator without RAMs has an initialised
 number of trainings

---
 include/wisardpkg.hpp              | 2 +-
 src/models/wisard/discriminator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index de7a6d4..66636fb 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18444,7 +18444,7 @@ private:
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 68e681a..1291300 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -2,7 +2,7 @@
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-- 
2.43.0


From 5301f3b53817f202713633c1784613cdf32fa383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 17/46] fix: a save to a file that fails raises, and
 RAMDataHandle replaces its file

---
 include/wisardpkg.hpp              | 11 ++++++++++-
 src/data/dataset.cc                |  3 +++
 src/models/wisard/discriminator.cc |  3 +++
 src/models/wisard/ramdatahandle.cc |  5 ++++-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 66636fb..e80c79e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17779,6 +17779,9 @@ public:
     }
 
     dataFile.close();
+    if(!dataFile){
+      throw Exception("The data set can not be saved to the file!");
+    }
   }
 
 private:
@@ -18123,13 +18126,16 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
     }
 
     dataFile.close();
+    if(!dataFile){
+      throw Exception("The data of the RAMs can not be saved to the file!");
+    }
   }
 
 private:
@@ -18722,6 +18728,9 @@ protected:
       }
 
       dataFile.close();
+      if(!dataFile){
+        throw Exception("The data of the model can not be saved to the file!");
+      }
       data = filename;
     }
     else{
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 65a6905..0cc9ff2 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -67,6 +67,9 @@ public:
     }
 
     dataFile.close();
+    if(!dataFile){
+      throw Exception("The data set can not be saved to the file!");
+    }
   }
 
 private:
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 1291300..3614a40 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -280,6 +280,9 @@ protected:
       }
 
       dataFile.close();
+      if(!dataFile){
+        throw Exception("The data of the model can not be saved to the file!");
+      }
       data = filename;
     }
     else{
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index bdf8788..a629ef0 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -56,13 +56,16 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
     }
 
     dataFile.close();
+    if(!dataFile){
+      throw Exception("The data of the RAMs can not be saved to the file!");
+    }
   }
 
 private:
-- 
2.43.0


From ede9d08b5ed88e29ed1ccee29735be7ae283ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 18/46] fix: loading data that is missing, unreadable or
 incomplete raises instead of giving an emptied object

---
 include/wisardpkg.hpp              | 34 +++++++++++++++++++++++++-----
 src/data/dataset.cc                |  8 ++++++-
 src/models/wisard/discriminator.cc | 18 +++++++++++++---
 src/models/wisard/ramdatahandle.cc |  8 ++++++-
 4 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e80c79e..f5aaa9b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17720,7 +17720,10 @@ public:
     }
     std::ifstream dataFile;
     dataFile.open(filename);
-    if(dataFile.is_open()){
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set can not be opened!");
+    }
+    else{
       std::string input="";
       while(std::getline(dataFile,input,'.')){
         int sharp = input.find("#");
@@ -17728,6 +17731,9 @@ public:
 
         add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
       }
+      if(dataFile.bad()){
+        throw Exception("The file of the data set can not be read!");
+      }
       dataFile.close();
     }
   }
@@ -18146,12 +18152,18 @@ private:
     if(inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file with the data of the RAMs can not be opened!");
+      }
+      else{
         while(true){
           if(dataFile.eof()) break;
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.bad()){
+            throw Exception("The file with the data of the RAMs can not be read!");
+          }
           ramdata[ramdata.size()] = dataToRam(rdata);
         }
         dataFile.close();
@@ -18682,12 +18694,20 @@ protected:
     if(data.size() >= s && data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file with the data of the model can not be opened!");
+      }
+      else{
         for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-          if(dataFile.eof()) break;
+          if(dataFile.eof()){
+            throw Exception("The data of the model has less RAMs than the mapping!");
+          }
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.bad()){
+            throw Exception("The file with the data of the model can not be read!");
+          }
           nl::json base = {
             {"addresses", *it},
             {"data", rdata}
@@ -18700,8 +18720,12 @@ protected:
     }
     else{
       size_t pos=0;
+      size_t found=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        size_t found = data.find('.',pos);
+        if(found == std::string::npos){
+          throw Exception("The data of the model has less RAMs than the mapping!");
+        }
+        found = data.find('.',pos);
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 0cc9ff2..79d8325 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -8,7 +8,10 @@ public:
     }
     std::ifstream dataFile;
     dataFile.open(filename);
-    if(dataFile.is_open()){
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set can not be opened!");
+    }
+    else{
       std::string input="";
       while(std::getline(dataFile,input,'.')){
         int sharp = input.find("#");
@@ -16,6 +19,9 @@ public:
 
         add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
       }
+      if(dataFile.bad()){
+        throw Exception("The file of the data set can not be read!");
+      }
       dataFile.close();
     }
   }
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 3614a40..d5c12e9 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -234,12 +234,20 @@ protected:
     if(data.size() >= s && data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file with the data of the model can not be opened!");
+      }
+      else{
         for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-          if(dataFile.eof()) break;
+          if(dataFile.eof()){
+            throw Exception("The data of the model has less RAMs than the mapping!");
+          }
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.bad()){
+            throw Exception("The file with the data of the model can not be read!");
+          }
           nl::json base = {
             {"addresses", *it},
             {"data", rdata}
@@ -252,8 +260,12 @@ protected:
     }
     else{
       size_t pos=0;
+      size_t found=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        size_t found = data.find('.',pos);
+        if(found == std::string::npos){
+          throw Exception("The data of the model has less RAMs than the mapping!");
+        }
+        found = data.find('.',pos);
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index a629ef0..0522639 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -76,12 +76,18 @@ private:
     if(inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file with the data of the RAMs can not be opened!");
+      }
+      else{
         while(true){
           if(dataFile.eof()) break;
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.bad()){
+            throw Exception("The file with the data of the RAMs can not be read!");
+          }
           ramdata[ramdata.size()] = dataToRam(rdata);
         }
         dataFile.close();
-- 
2.43.0


From c993b7437d43e6e7e2c342fa3b99d9216f903e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 19/46] fix: clusters own their discriminators, so copies are
 independent and nothing leaks

---
 include/wisardpkg.hpp            | 36 +++++++++++++++++---------------
 src/models/cluswisard/cluster.cc | 36 +++++++++++++++++---------------
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f5aaa9b..89e45b4 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19134,7 +19134,8 @@ protected:
 
 class Cluster {
 public:
-  Cluster(){}
+  Cluster(): addressSize(2), entrySize(2), minScore(0), threshold(1), discriminatorsLimit(1),
+    completeAddressing(true), ignoreZero(false), base(2){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
     int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
@@ -19177,7 +19178,8 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      int index = discriminators.size();
+      discriminators[index] = Discriminator(d);
     }
   }
 
@@ -19216,16 +19218,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -19241,8 +19243,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -19252,7 +19254,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -19263,14 +19265,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -19279,20 +19281,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -19300,7 +19302,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -19313,7 +19315,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 8f059ae..903002d 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -1,7 +1,8 @@
 
 class Cluster {
 public:
-  Cluster(){}
+  Cluster(): addressSize(2), entrySize(2), minScore(0), threshold(1), discriminatorsLimit(1),
+    completeAddressing(true), ignoreZero(false), base(2){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
     int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
@@ -44,7 +45,8 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      int index = discriminators.size();
+      discriminators[index] = Discriminator(d);
     }
   }
 
@@ -83,16 +85,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -108,8 +110,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -119,7 +121,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -130,14 +132,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -146,20 +148,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -167,7 +169,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -180,7 +182,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
-- 
2.43.0


From 24a3bde75855ab844f54fb8bb8b39722e838ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 20/46] fix: unsupervised training uses the base, keeps what it
 learned and works after a supervised one

---
 include/wisardpkg.hpp               | 4 ++--
 src/models/cluswisard/cluswisard.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 89e45b4..c4481cc 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19448,8 +19448,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 4179e54..1520b8e 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -126,8 +126,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
-- 
2.43.0


From 8b9912a1bc7dfdfcf9f7394e8b1720e67ec08d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 21/46] fix: semi-supervised training learns the examples
 without label instead of the first ones

---
 include/wisardpkg.hpp               | 13 +++----------
 src/models/cluswisard/cluswisard.cc | 13 +++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c4481cc..015ee07 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19417,18 +19417,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -19440,7 +19433,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 1520b8e..9850bda 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -95,18 +95,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -118,7 +111,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-- 
2.43.0


From e11685a74696b5755524cda36a9a3e64f917ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 22/46] fix: ClusWisard returns the whole label of a class that
 contains ::

---
 include/wisardpkg.hpp               | 4 ++--
 src/models/cluswisard/cluswisard.cc | 4 ++--
 src/wrappers/cluswisardwrapper.cc   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 015ee07..76d35ae 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19457,7 +19457,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19540,7 +19540,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 9850bda..fcbcd7b 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -135,7 +135,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -218,7 +218,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 2d94eb6..873f15b 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -47,7 +47,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      std::string aClass = label.substr(0,label.find("::"));
+      std::string aClass = label.substr(0,label.rfind("::"));
 
       if(returnConfidence || returnActivationDegree || returnClassesDegrees){
         labels[i] = py::dict(py::arg("class")=aClass);
@@ -86,7 +86,7 @@ protected:
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;
     if(total == 0) total=1;
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i){
-      std::string aClass = i->first.substr(0,i->first.find("::"));
+      std::string aClass = i->first.substr(0,i->first.rfind("::"));
       output[index] = py::dict(py::arg("class")=aClass, py::arg("degree")=(i->second/total));
       index++;
     }
-- 
2.43.0


From 27307acc3fe56603bb69107bc9c4a52c627c9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 23/46] fix: asking for the mental image of an unknown label
 creates no class

---
 include/wisardpkg.hpp               | 4 +++-
 src/models/cluswisard/cluswisard.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 76d35ae..624c4cb 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19482,7 +19482,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    std::map<std::string, Cluster>::iterator c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index fcbcd7b..6887454 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -160,7 +160,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    std::map<std::string, Cluster>::iterator c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
-- 
2.43.0


From f4884d157e053f6828c5fc8c7499763dceb9ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 24/46] fix: the C++ constructor of KernelCanvas sets its
 dimension

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 624c4cb..7943eda 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17857,7 +17857,7 @@ class BinBase {
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 962f121..c15c356 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -1,7 +1,7 @@
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
-- 
2.43.0


From 17784ab92247fa436f7563d706a7500137636088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 25/46] fix: KernelCanvas checks the dimension of every point
 before reading it

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7943eda..2a1cec0 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17873,6 +17873,7 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -17887,7 +17888,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index c15c356..a8bdc56 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -17,6 +17,7 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -31,7 +32,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
-- 
2.43.0


From 5806146060dec4103381ecb7d73d8af899ff024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 26/46] fix: KernelCanvas with useDirection stays inside of its
 point

---
 include/wisardpkg.hpp            | 8 ++++----
 src/binarization/kernelcanvas.cc | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 2a1cec0..ba2b3c1 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18023,7 +18023,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -18036,7 +18036,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -18046,8 +18046,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
       }
     }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index a8bdc56..c84a324 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -167,7 +167,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -180,7 +180,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -190,8 +190,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
       }
     }
-- 
2.43.0


From 91a0d6bc217298740e1a2b07ea1189d7bd7fdac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 27/46] fix: NaN and impossible loaded limits are refused like
 the other invalid parameters

---
 include/wisardpkg.hpp               | 5 +++--
 src/binarization/kernelcanvas.cc    | 2 +-
 src/models/cluswisard/cluswisard.cc | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ba2b3c1..8df2792 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18065,7 +18065,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
@@ -19370,6 +19370,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
@@ -19581,7 +19582,7 @@ protected:
   }
 
   void checkConfigInputs(const float minScore, const int threshold, const int discriminatorsLimit){
-    if(minScore < 0 || minScore > 1){
+    if(!(minScore >= 0 && minScore <= 1)){
       throw Exception("min score must be between 0 and 1 inclusive!");
     }
     if(threshold < 1){
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index c84a324..65941b4 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -209,7 +209,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 6887454..5deb76b 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -48,6 +48,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
@@ -259,7 +260,7 @@ protected:
   }
 
   void checkConfigInputs(const float minScore, const int threshold, const int discriminatorsLimit){
-    if(minScore < 0 || minScore > 1){
+    if(!(minScore >= 0 && minScore <= 1)){
       throw Exception("min score must be between 0 and 1 inclusive!");
     }
     if(threshold < 1){
-- 
2.43.0


From 7bc0c9682fa60766d2fcb5ec42ed8df33c5b12b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 28/46] fix: Synthesizer draws a new sample at each call and
 accepts an empty mental image

---
 include/wisardpkg.hpp              | 3 ++-
 src/synthetic_data/synthesizers.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 8df2792..e552956 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17804,8 +17804,9 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData < 1) return out;
+    int index = randint(0, maxData-1, false);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 21c917b..6bdb161 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -8,8 +8,9 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData < 1) return out;
+    int index = randint(0, maxData-1, false);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
-- 
2.43.0


From a58256d44098a466aac3910cb16b8c515b80d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 29/46] fix: Synthesizer never sets a position with a negative
 value

---
 include/wisardpkg.hpp              | 2 +-
 src/synthetic_data/synthesizers.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e552956..e47fee2 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17844,7 +17844,7 @@ private:
       random_shuffle(indexes.begin(),indexes.end());
 
       for(unsigned int j=0; j<indexes.size(); j++){
-        if(intensity == 0) break;
+        if(intensity <= 0) break;
         cube[i][j] = 1;
         intensity--;
       }
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 6bdb161..dd2d6df 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -48,7 +48,7 @@ private:
       random_shuffle(indexes.begin(),indexes.end());
 
       for(unsigned int j=0; j<indexes.size(); j++){
-        if(intensity == 0) break;
+        if(intensity <= 0) break;
         cube[i][j] = 1;
         intensity--;
       }
-- 
2.43.0


From 57bdf16df041704f975fc650c8f76bf79c8a698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 30/46] fix: the confidence is 0 instead of NaN when no class
 has votes

---
 include/wisardpkg.hpp   | 1 +
 src/common/bleaching.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e47fee2..ad79001 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17547,6 +17547,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 56f417b..0dce40f 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -50,6 +50,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
-- 
2.43.0


From b3da3292e62a331f7bec7991dc93677f0a2b1cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 31/46] fix: the ambiguity of the bleaching does not depend on
 the order of the labels

---
 include/wisardpkg.hpp   | 9 +++++----
 src/common/bleaching.cc | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ad79001..c60943b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17560,16 +17560,17 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = candidates.size() > 1 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 0dce40f..a3078f7 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -63,16 +63,17 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = candidates.size() > 1 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
-- 
2.43.0


From a389ac1659c44ddf55ed07a3fa65b9bb7288b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 32/46] fix: the bleaching of huge counters skips the
 thresholds that change nothing and ends

---
 include/wisardpkg.hpp   | 7 +++++--
 src/base.h              | 1 +
 src/common/bleaching.cc | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c60943b..bef9e8d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -21,6 +21,7 @@ https://github.com/IAZero/wisardpkg
 #include <time.h>
 #include <exception>
 #include <cmath>
+#include <limits>
 
 /*
 JSON for Modern C++
@@ -17514,20 +17515,22 @@ public:
 
   static std::map<std::string, int> makeConfidenceless(std::map<std::string,std::vector<int>>& allvotes, const bool bleachingActivated, const int confidence) {
     std::map<std::string, int> labels;
-    int bleaching = 1;
+    long long bleaching = 1;
     std::tuple<bool,int> ambiguity;
 
     do{
+      long long smallest = std::numeric_limits<int>::max();
       for(std::map<std::string,std::vector<int>>::iterator i=allvotes.begin(); i!=allvotes.end(); ++i){
         labels[i->first] = 0;
         for(unsigned int j=0; j<i->second.size(); j++){
           if(i->second[j] >= bleaching){
             labels[i->first]++;
+            if(i->second[j] < smallest) smallest = i->second[j];
           }
         }
       }
       if(!bleachingActivated) break;
-      bleaching++;
+      bleaching = smallest+1;
       ambiguity = isThereAmbiguity(labels, confidence);
     }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );
 
diff --git a/src/base.h b/src/base.h
index 8281a23..95f372a 100644
--- a/src/base.h
+++ b/src/base.h
@@ -10,3 +10,4 @@
 #include <time.h>
 #include <exception>
 #include <cmath>
+#include <limits>
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index a3078f7..ec09bb0 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -17,20 +17,22 @@ public:
 
   static std::map<std::string, int> makeConfidenceless(std::map<std::string,std::vector<int>>& allvotes, const bool bleachingActivated, const int confidence) {
     std::map<std::string, int> labels;
-    int bleaching = 1;
+    long long bleaching = 1;
     std::tuple<bool,int> ambiguity;
 
     do{
+      long long smallest = std::numeric_limits<int>::max();
       for(std::map<std::string,std::vector<int>>::iterator i=allvotes.begin(); i!=allvotes.end(); ++i){
         labels[i->first] = 0;
         for(unsigned int j=0; j<i->second.size(); j++){
           if(i->second[j] >= bleaching){
             labels[i->first]++;
+            if(i->second[j] < smallest) smallest = i->second[j];
           }
         }
       }
       if(!bleachingActivated) break;
-      bleaching++;
+      bleaching = smallest+1;
       ambiguity = isThereAmbiguity(labels, confidence);
     }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );
 
-- 
2.43.0


From 3d2ac8305136870eb835decbd536b0060120827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 33/46] fix: the activation degree uses the number of RAMs of
 the winner

---
 include/wisardpkg.hpp               | 14 ++++++++++++++
 src/models/cluswisard/cluster.cc    |  4 ++++
 src/models/cluswisard/cluswisard.cc |  5 +++++
 src/models/wisard/wisard.cc         |  5 +++++
 src/wrappers/cluswisardwrapper.cc   |  6 +++---
 src/wrappers/wisardwrapper.cc       | 10 +++++-----
 6 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index bef9e8d..0dfe6a0 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19059,6 +19059,11 @@ protected:
     return Bleaching::make(allvotes, bleachingActivated, searchBestConfidence, confidence);
   }
 
+  int getNumberOfRAMS(const std::string& label) const{
+    std::map<std::string, Discriminator>::const_iterator d = discriminators.find(label);
+    return d == discriminators.end() ? 0 : d->second.getNumberOfRAMS();
+  }
+
   nl::json getClassesJSON(bool huge, std::string path){
     nl::json c;
     for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
@@ -19218,6 +19223,10 @@ public:
     return classify<BinInput>(image);
   }
 
+  int getNumberOfRAMS() const{
+    return discriminators.empty() ? 0 : discriminators.begin()->second.getNumberOfRAMS();
+  }
+
   unsigned int getNumberOfDiscriminators(){
     return discriminators.size();
   }
@@ -19575,6 +19584,11 @@ protected:
     return Bleaching::make(allvotes, bleachingActivated);
   }
 
+  int getNumberOfRAMS(const std::string& label) const{
+    std::map<std::string, Cluster>::const_iterator c = clusters.find(label);
+    return c == clusters.end() ? 0 : c->second.getNumberOfRAMS();
+  }
+
   void checkInputLabels(const int numberOfInputs, std::map<int, std::string>& labels){
     if((int)labels.size() > numberOfInputs){
       throw Exception("The total of labels given is bigger than the inputs given!");
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 903002d..5b127c5 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -79,6 +79,10 @@ public:
     return classify<BinInput>(image);
   }
 
+  int getNumberOfRAMS() const{
+    return discriminators.empty() ? 0 : discriminators.begin()->second.getNumberOfRAMS();
+  }
+
   unsigned int getNumberOfDiscriminators(){
     return discriminators.size();
   }
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 5deb76b..3f33fbf 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -247,6 +247,11 @@ protected:
     return Bleaching::make(allvotes, bleachingActivated);
   }
 
+  int getNumberOfRAMS(const std::string& label) const{
+    std::map<std::string, Cluster>::const_iterator c = clusters.find(label);
+    return c == clusters.end() ? 0 : c->second.getNumberOfRAMS();
+  }
+
   void checkInputLabels(const int numberOfInputs, std::map<int, std::string>& labels){
     if((int)labels.size() > numberOfInputs){
       throw Exception("The total of labels given is bigger than the inputs given!");
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 6958437..c60bbd8 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -187,6 +187,11 @@ protected:
     return Bleaching::make(allvotes, bleachingActivated, searchBestConfidence, confidence);
   }
 
+  int getNumberOfRAMS(const std::string& label) const{
+    std::map<std::string, Discriminator>::const_iterator d = discriminators.find(label);
+    return d == discriminators.end() ? 0 : d->second.getNumberOfRAMS();
+  }
+
   nl::json getClassesJSON(bool huge, std::string path){
     nl::json c;
     for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 873f15b..a92da20 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -40,7 +40,6 @@ public:
 
   py::list pyClassify(const std::vector<std::vector<int>>& images){
     if(images.empty()) return py::list();
-    float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
@@ -54,12 +53,13 @@ public:
       }
 
       if(returnActivationDegree){
-        float activationDegree = candidates[label]/numberOfRAMS;
+        float numberOfRAMS = getNumberOfRAMS(aClass);
+        float activationDegree = numberOfRAMS == 0 ? 0 : candidates[label]/numberOfRAMS;
         labels[i]["activationDegree"]=activationDegree;
       }
 
       if(returnConfidence){
-        float confidence = Bleaching::getConfidence(candidates, candidates[label]);
+        float confidence = Bleaching::getConfidence(candidates, candidates.empty() ? 0 : candidates[label]);
         labels[i]["confidence"]=confidence;
       }
 
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index e94a571..c54a816 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -43,18 +43,19 @@ public:
     }
   }
 
-  void setClassifyOutput(py::list& labels, int i, std::string aClass, float numberOfRAMS, std::map<std::string,int>& candidates){
+  void setClassifyOutput(py::list& labels, int i, std::string aClass, std::map<std::string,int>& candidates){
     if(returnConfidence || returnActivationDegree || returnClassesDegrees){
       labels[i] = py::dict(py::arg("class")=aClass);
     }
 
     if(returnActivationDegree){
-      float activationDegree = candidates[aClass]/numberOfRAMS;
+      float numberOfRAMS = getNumberOfRAMS(aClass);
+      float activationDegree = numberOfRAMS == 0 ? 0 : candidates[aClass]/numberOfRAMS;
       labels[i]["activationDegree"]=activationDegree;
     }
 
     if(returnConfidence){
-      float confidence = Bleaching::getConfidence(candidates, candidates[aClass]);
+      float confidence = Bleaching::getConfidence(candidates, candidates.empty() ? 0 : candidates[aClass]);
       labels[i]["confidence"]=confidence;
     }
 
@@ -92,14 +93,13 @@ protected:
   template<typename T>
   py::list _pyClassify(const T& images){
     if(images.size() == 0) return py::list();
-    float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
       std::string aClass = Bleaching::getBiggestCandidate(candidates);
-      setClassifyOutput(labels, i, aClass, numberOfRAMS, candidates);
+      setClassifyOutput(labels, i, aClass, candidates);
     }
     if(verbose) std::cout << "\r" << std::endl;
     return labels;
-- 
2.43.0


From 027f3cce7d190426224005f52c3dd1f432c756ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 34/46] fix: reading a RAMDataHandle changes nothing in it

---
 include/wisardpkg.hpp              | 12 ++++++++----
 src/models/wisard/ramdatahandle.cc | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0dfe6a0..8c08aef 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18090,11 +18090,14 @@ public:
   }
 
   int get(int r, int addr){
-    return ramdata[r][addr];
+    ram_t ram = get(r);
+    ram_t::const_iterator it = ram.find(addr);
+    return it == ram.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    std::unordered_map<int,ram_t>::const_iterator it = ramdata.find(r);
+    return it == ramdata.end() ? ram_t() : it->second;
   }
 
   void set(int r, int addr, int value){
@@ -18125,9 +18128,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 0522639..2bce2a0 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -8,11 +8,14 @@ public:
   }
 
   int get(int r, int addr){
-    return ramdata[r][addr];
+    ram_t ram = get(r);
+    ram_t::const_iterator it = ram.find(addr);
+    return it == ram.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    std::unordered_map<int,ram_t>::const_iterator it = ramdata.find(r);
+    return it == ramdata.end() ? ram_t() : it->second;
   }
 
   void set(int r, int addr, int value){
@@ -43,9 +46,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
-- 
2.43.0


From 82bde499390fd4b945a0fa9a61db7f774d935516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 35/46] fix: setting a counter of a RAM beyond the last one
 keeps the data complete

---
 include/wisardpkg.hpp              | 4 ++++
 src/models/wisard/ramdatahandle.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 8c08aef..776729f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18101,6 +18101,10 @@ public:
   }
 
   void set(int r, int addr, int value){
+    if(r < 0){
+      throw Exception("Index out of range!");
+    }
+    for(int i=ramdata.size(); i<r; i++) ramdata[i];
     ramdata[r][addr] = value;
   }
 
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2bce2a0..2f8a256 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -19,6 +19,10 @@ public:
   }
 
   void set(int r, int addr, int value){
+    if(r < 0){
+      throw Exception("Index out of range!");
+    }
+    for(int i=ramdata.size(); i<r; i++) ramdata[i];
     ramdata[r][addr] = value;
   }
 
-- 
2.43.0


From 9b27d4dd056e8367e3257add60556cf2c8af82a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 36/46] fix: RAMDataHandle reads and sets addresses that do not
 fit in 32 bits

---
 include/wisardpkg.hpp              | 11 ++++++-----
 src/models/wisard/ramdatahandle.cc | 11 ++++++-----
 src/wisard_bind.cc                 |  2 +-
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 776729f..39e344b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18089,10 +18089,11 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    ram_t ram = get(r);
-    ram_t::const_iterator it = ram.find(addr);
-    return it == ram.end() ? 0 : it->second;
+  int get(int r, addr_t addr){
+    std::unordered_map<int,ram_t>::const_iterator ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    ram_t::const_iterator it = ram->second.find(addr);
+    return it == ram->second.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
@@ -18100,7 +18101,7 @@ public:
     return it == ramdata.end() ? ram_t() : it->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
     if(r < 0){
       throw Exception("Index out of range!");
     }
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2f8a256..f220664 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -7,10 +7,11 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    ram_t ram = get(r);
-    ram_t::const_iterator it = ram.find(addr);
-    return it == ram.end() ? 0 : it->second;
+  int get(int r, addr_t addr){
+    std::unordered_map<int,ram_t>::const_iterator ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    ram_t::const_iterator it = ram->second.find(addr);
+    return it == ram->second.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
@@ -18,7 +19,7 @@ public:
     return it == ramdata.end() ? ram_t() : it->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
     if(r < 0){
       throw Exception("Index out of range!");
     }
diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 564927f..b64e3f4 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -44,7 +44,7 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<RAMDataHandle>(m, "RAMDataHandle")
       .def(py::init<std::string>())
       .def("set", &RAMDataHandle::set)
-      .def("get", (int (RAMDataHandle::*)(int,int)) &RAMDataHandle::get)
+      .def("get", (int (RAMDataHandle::*)(int,addr_t)) &RAMDataHandle::get)
       .def("get", (ram_t (RAMDataHandle::*)(int)) &RAMDataHandle::get)
       .def("data", (std::string (RAMDataHandle::*)()) &RAMDataHandle::data)
       .def("data", (std::string (RAMDataHandle::*)(int)) &RAMDataHandle::data)
-- 
2.43.0


From c26a01bd6521a7fce7f387dd8336121f7cfb3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 37/46] fix: negative input values are refused instead of
 addressing another counter

---
 include/wisardpkg.hpp    | 3 +++
 src/models/wisard/ram.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 39e344b..f65c578 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18462,6 +18462,9 @@ private:
   }
 
   void checkPos(const int code) const{
+    if(code < 0){
+      throw Exception("The input data has a negative value!");
+    }
     if(code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index e9ea2e9..014e494 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -178,6 +178,9 @@ private:
   }
 
   void checkPos(const int code) const{
+    if(code < 0){
+      throw Exception("The input data has a negative value!");
+    }
     if(code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
-- 
2.43.0


From 7bc7ab3d31851126a75bf36c2a5aad4c46ad2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 38/46] fix: the JSON of a Wisard has the mapping configured
 for its classes

---
 include/wisardpkg.hpp       | 1 +
 src/models/wisard/wisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f65c578..8f7ff50 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19098,6 +19098,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index c60bbd8..a7381bc 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -214,6 +214,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
-- 
2.43.0


From 5f31788cab3965514f5a1a3b388b4152e47ec96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 39/46] fix: a discriminator learns and unlearns an example
 completely or not at all

---
 include/wisardpkg.hpp              | 14 ++++++++++++++
 src/models/wisard/discriminator.cc |  9 +++++++++
 src/models/wisard/ram.cc           |  5 +++++
 3 files changed, 28 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 8f7ff50..d04d33e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18390,6 +18390,11 @@ public:
     positions.clear();
   }
 
+  template<typename T>
+  void check(const T& image) const{
+    getIndex<T>(image);
+  }
+
 protected:
   template<typename T>
   addr_t getIndex(const T& image) const{
@@ -18569,6 +18574,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkRAMs(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -18817,6 +18823,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkRAMs(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -18825,6 +18832,13 @@ protected:
 
 private:
 
+  template<typename T>
+  void checkRAMs(const T& image) const {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].check(image);
+    }
+  }
+
   void checkEntrySize(const int entry) const {
     if(entrySize != entry){
       throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index d5c12e9..225b5fd 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -91,6 +91,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkRAMs(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -339,6 +340,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkRAMs(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -347,6 +349,13 @@ protected:
 
 private:
 
+  template<typename T>
+  void checkRAMs(const T& image) const {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].check(image);
+    }
+  }
+
   void checkEntrySize(const int entry) const {
     if(entrySize != entry){
       throw Exception("The entry size defined on creation of discriminator is different of entry size given as input!");
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 014e494..49c7ac8 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -106,6 +106,11 @@ public:
     positions.clear();
   }
 
+  template<typename T>
+  void check(const T& image) const{
+    getIndex<T>(image);
+  }
+
 protected:
   template<typename T>
   addr_t getIndex(const T& image) const{
-- 
2.43.0


From 48209583947f27acef145f594618b67760fb4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 40/46] fix: an example refused by a model leaves no class,
 cluster or discriminator behind

---
 include/wisardpkg.hpp               | 45 +++++++++++++++++------------
 src/models/cluswisard/cluster.cc    | 17 ++++++-----
 src/models/cluswisard/cluswisard.cc | 12 +++++---
 src/models/wisard/wisard.cc         | 16 ++++++----
 4 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index d04d33e..d8b31d8 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19048,9 +19048,13 @@ protected:
   template<typename T>
   void train(const T& image, const std::string& label){
     if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+      Discriminator discriminator = makeDiscriminator(label, image.size());
+      discriminator.train(image);
+      discriminators[label] = discriminator;
+    }
+    else{
+      discriminators[label].train(image);
     }
-    discriminators[label].train(image);
   }
 
   template<typename T>
@@ -19126,19 +19130,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
@@ -19306,15 +19310,17 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  template<typename T>
+  void makeDiscriminator(const int index, const T& image){
+    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators[index] = discriminator;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(0, image);
       return;
     }
 
@@ -19322,9 +19328,9 @@ private:
     bool trained = false;
     Discriminator* bestDiscriminator = NULL;
 
+    std::vector<std::vector<int>> allvotes = classify<T>(image);
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i].classify(image);
-      float score = getScore(votes);
+      float score = getScore(allvotes[i]);
       float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
@@ -19343,8 +19349,7 @@ private:
 
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
+      makeDiscriminator(index, image);
       trained = true;
     }
 
@@ -19577,9 +19582,13 @@ public:
 protected:
   void train(const std::vector<int>& image, const std::string& label){
     if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+      Cluster cluster = makeCluster(image.size());
+      cluster.train(image);
+      clusters[label] = cluster;
+    }
+    else{
+      clusters[label].train(image);
     }
-    clusters[label].train(image);
   }
 
   void train(const std::vector<int>& image){
@@ -19652,8 +19661,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeCluster(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 5b127c5..8b79812 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -135,15 +135,17 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  template<typename T>
+  void makeDiscriminator(const int index, const T& image){
+    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators[index] = discriminator;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(0, image);
       return;
     }
 
@@ -151,9 +153,9 @@ private:
     bool trained = false;
     Discriminator* bestDiscriminator = NULL;
 
+    std::vector<std::vector<int>> allvotes = classify<T>(image);
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i].classify(image);
-      float score = getScore(votes);
+      float score = getScore(allvotes[i]);
       float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
@@ -172,8 +174,7 @@ private:
 
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
+      makeDiscriminator(index, image);
       trained = true;
     }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 3f33fbf..3b44fb7 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -213,9 +213,13 @@ public:
 protected:
   void train(const std::vector<int>& image, const std::string& label){
     if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+      Cluster cluster = makeCluster(image.size());
+      cluster.train(image);
+      clusters[label] = cluster;
+    }
+    else{
+      clusters[label].train(image);
     }
-    clusters[label].train(image);
   }
 
   void train(const std::vector<int>& image){
@@ -288,8 +292,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeCluster(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index a7381bc..7e4129d 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -150,9 +150,13 @@ protected:
   template<typename T>
   void train(const T& image, const std::string& label){
     if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+      Discriminator discriminator = makeDiscriminator(label, image.size());
+      discriminator.train(image);
+      discriminators[label] = discriminator;
+    }
+    else{
+      discriminators[label].train(image);
     }
-    discriminators[label].train(image);
   }
 
   template<typename T>
@@ -228,19 +232,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
-- 
2.43.0


From cf52eb711506c8d652a8a5612d3fdfcb8a4b63f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 41/46] fix: a new class with another entry size is refused
 instead of making the model unusable

---
 include/wisardpkg.hpp               | 22 ++++++++++++++++++++++
 src/models/cluswisard/cluster.cc    |  4 ++++
 src/models/cluswisard/cluswisard.cc |  7 +++++++
 src/models/wisard/discriminator.cc  |  4 ++++
 src/models/wisard/wisard.cc         |  7 +++++++
 5 files changed, 44 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index d8b31d8..c4137b5 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18585,6 +18585,10 @@ public:
     return count;
   }
 
+  int getEntrySize() const{
+    return entrySize;
+  }
+
   int getNumberOfRAMS() const{
     return rams.size();
   }
@@ -19048,6 +19052,7 @@ protected:
   template<typename T>
   void train(const T& image, const std::string& label){
     if(discriminators.find(label) == discriminators.end()){
+      checkEntrySize(image.size());
       Discriminator discriminator = makeDiscriminator(label, image.size());
       discriminator.train(image);
       discriminators[label] = discriminator;
@@ -19146,6 +19151,12 @@ protected:
     }
   }
 
+  void checkEntrySize(const int entrySize) const{
+    if(!discriminators.empty() && discriminators.begin()->second.getEntrySize() != entrySize){
+      throw Exception("The entry size given is different of the entry size of the other classes!");
+    }
+  }
+
   void checkInputSizes(const int imageSize, const int labelsSize){
     if(imageSize != labelsSize){
       throw Exception("The size of data is not the same of the size of labels!");
@@ -19254,6 +19265,10 @@ public:
     return classify<BinInput>(image);
   }
 
+  int getEntrySize() const{
+    return entrySize;
+  }
+
   int getNumberOfRAMS() const{
     return discriminators.empty() ? 0 : discriminators.begin()->second.getNumberOfRAMS();
   }
@@ -19582,6 +19597,7 @@ public:
 protected:
   void train(const std::vector<int>& image, const std::string& label){
     if(clusters.find(label) == clusters.end()){
+      checkEntrySize(image.size());
       Cluster cluster = makeCluster(image.size());
       cluster.train(image);
       clusters[label] = cluster;
@@ -19649,6 +19665,12 @@ protected:
     }
   }
 
+  void checkEntrySize(const int entrySize) const{
+    if(!clusters.empty() && clusters.begin()->second.getEntrySize() != entrySize){
+      throw Exception("The entry size given is different of the entry size of the other classes!");
+    }
+  }
+
   void checkInputSizes(const int imageSize, const int labelsSize){
     if(imageSize != labelsSize){
       throw Exception("The size of data is not the same of the size of labels!");
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 8b79812..3b524be 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -79,6 +79,10 @@ public:
     return classify<BinInput>(image);
   }
 
+  int getEntrySize() const{
+    return entrySize;
+  }
+
   int getNumberOfRAMS() const{
     return discriminators.empty() ? 0 : discriminators.begin()->second.getNumberOfRAMS();
   }
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 3b44fb7..0195140 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -213,6 +213,7 @@ public:
 protected:
   void train(const std::vector<int>& image, const std::string& label){
     if(clusters.find(label) == clusters.end()){
+      checkEntrySize(image.size());
       Cluster cluster = makeCluster(image.size());
       cluster.train(image);
       clusters[label] = cluster;
@@ -280,6 +281,12 @@ protected:
     }
   }
 
+  void checkEntrySize(const int entrySize) const{
+    if(!clusters.empty() && clusters.begin()->second.getEntrySize() != entrySize){
+      throw Exception("The entry size given is different of the entry size of the other classes!");
+    }
+  }
+
   void checkInputSizes(const int imageSize, const int labelsSize){
     if(imageSize != labelsSize){
       throw Exception("The size of data is not the same of the size of labels!");
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 225b5fd..cb6f045 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -102,6 +102,10 @@ public:
     return count;
   }
 
+  int getEntrySize() const{
+    return entrySize;
+  }
+
   int getNumberOfRAMS() const{
     return rams.size();
   }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 7e4129d..30fb2b6 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -150,6 +150,7 @@ protected:
   template<typename T>
   void train(const T& image, const std::string& label){
     if(discriminators.find(label) == discriminators.end()){
+      checkEntrySize(image.size());
       Discriminator discriminator = makeDiscriminator(label, image.size());
       discriminator.train(image);
       discriminators[label] = discriminator;
@@ -248,6 +249,12 @@ protected:
     }
   }
 
+  void checkEntrySize(const int entrySize) const{
+    if(!discriminators.empty() && discriminators.begin()->second.getEntrySize() != entrySize){
+      throw Exception("The entry size given is different of the entry size of the other classes!");
+    }
+  }
+
   void checkInputSizes(const int imageSize, const int labelsSize){
     if(imageSize != labelsSize){
       throw Exception("The size of data is not the same of the size of labels!");
-- 
2.43.0


From 2ea75772abe81754f88d9414caa4a5225a0016d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 42/46] fix: ClusWisard uses, saves and loads its indexes
 option

---
 include/wisardpkg.hpp               | 23 ++++++++++++++++++-----
 src/models/cluswisard/cluster.cc    | 13 ++++++++++---
 src/models/cluswisard/cluswisard.cc | 10 ++++++++--
 src/wrappers/cluswisardwrapper.cc   |  3 +++
 4 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c4137b5..41dc312 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19190,10 +19190,11 @@ public:
   Cluster(): addressSize(2), entrySize(2), minScore(0), threshold(1), discriminatorsLimit(1),
     completeAddressing(true), ignoreZero(false), base(2){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
-    int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
+    int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2,
+    const std::vector<int>& indexes=std::vector<int>()):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
     threshold(threshold), discriminatorsLimit(discriminatorsLimit),
-    completeAddressing(completeAddressing), ignoreZero(ignoreZero), base(base){
+    completeAddressing(completeAddressing), ignoreZero(ignoreZero), base(base), indexes(indexes){
     }
   Cluster(nl::json options){
     nl::json value;
@@ -19222,6 +19223,9 @@ public:
     value = options["base"];
     base = value.is_null() ? 2 : value.get<int>();
 
+    value = options["indexes"];
+    indexes = value.is_null() ? std::vector<int>(0) : value.get<std::vector<int>>();
+
     nl::json dConfig = {
       {"ignoreZero", ignoreZero},
       {"base", base}
@@ -19324,10 +19328,13 @@ private:
   bool completeAddressing;
   bool ignoreZero;
   int base;
+  std::vector<int> indexes;
 
   template<typename T>
   void makeDiscriminator(const int index, const T& image){
-    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    Discriminator discriminator = indexes.size() != 0 ?
+      Discriminator(indexes, addressSize, entrySize, ignoreZero, base) :
+      Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     discriminator.train(image);
     discriminators[index] = discriminator;
   }
@@ -19406,6 +19413,9 @@ public:
     value = options["completeAddressing"];
     completeAddressing = value.is_null() ? true : value.get<bool>();
 
+    value = options["indexes"];
+    indexes = value.is_null() ? std::vector<int>(0) : value.get<std::vector<int>>();
+
     value = options["base"];
     base = value.is_null() ? 2 : value.get<int>();
 
@@ -19440,6 +19450,7 @@ public:
         {"threshold", threshold},
         {"discriminatorsLimit", discriminatorsLimit},
         {"completeAddressing", completeAddressing},
+        {"indexes", indexes},
         {"ignoreZero", ignoreZero},
         {"base", base}
       };
@@ -19505,7 +19516,7 @@ public:
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
     if(unsupervisedCluster.getSize()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base, indexes);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
@@ -19684,7 +19695,7 @@ protected:
   }
 
   Cluster makeCluster(const int entrySize){
-    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base, indexes);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
@@ -19704,6 +19715,7 @@ protected:
       {"discriminatorsLimit", discriminatorsLimit},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
       {"base", base},
@@ -19730,6 +19742,7 @@ protected:
   bool returnActivationDegree;
   bool returnClassesDegrees;
   int confidence;
+  std::vector<int> indexes;
   std::map<std::string, Cluster> clusters;
   Cluster unsupervisedCluster;
 };
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 3b524be..f13fea5 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -4,10 +4,11 @@ public:
   Cluster(): addressSize(2), entrySize(2), minScore(0), threshold(1), discriminatorsLimit(1),
     completeAddressing(true), ignoreZero(false), base(2){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
-    int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
+    int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2,
+    const std::vector<int>& indexes=std::vector<int>()):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
     threshold(threshold), discriminatorsLimit(discriminatorsLimit),
-    completeAddressing(completeAddressing), ignoreZero(ignoreZero), base(base){
+    completeAddressing(completeAddressing), ignoreZero(ignoreZero), base(base), indexes(indexes){
     }
   Cluster(nl::json options){
     nl::json value;
@@ -36,6 +37,9 @@ public:
     value = options["base"];
     base = value.is_null() ? 2 : value.get<int>();
 
+    value = options["indexes"];
+    indexes = value.is_null() ? std::vector<int>(0) : value.get<std::vector<int>>();
+
     nl::json dConfig = {
       {"ignoreZero", ignoreZero},
       {"base", base}
@@ -138,10 +142,13 @@ private:
   bool completeAddressing;
   bool ignoreZero;
   int base;
+  std::vector<int> indexes;
 
   template<typename T>
   void makeDiscriminator(const int index, const T& image){
-    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    Discriminator discriminator = indexes.size() != 0 ?
+      Discriminator(indexes, addressSize, entrySize, ignoreZero, base) :
+      Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     discriminator.train(image);
     discriminators[index] = discriminator;
   }
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 0195140..547b880 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -22,6 +22,9 @@ public:
     value = options["completeAddressing"];
     completeAddressing = value.is_null() ? true : value.get<bool>();
 
+    value = options["indexes"];
+    indexes = value.is_null() ? std::vector<int>(0) : value.get<std::vector<int>>();
+
     value = options["base"];
     base = value.is_null() ? 2 : value.get<int>();
 
@@ -56,6 +59,7 @@ public:
         {"threshold", threshold},
         {"discriminatorsLimit", discriminatorsLimit},
         {"completeAddressing", completeAddressing},
+        {"indexes", indexes},
         {"ignoreZero", ignoreZero},
         {"base", base}
       };
@@ -121,7 +125,7 @@ public:
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
     if(unsupervisedCluster.getSize()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base, indexes);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
@@ -300,7 +304,7 @@ protected:
   }
 
   Cluster makeCluster(const int entrySize){
-    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base, indexes);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
@@ -320,6 +324,7 @@ protected:
       {"discriminatorsLimit", discriminatorsLimit},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
       {"base", base},
@@ -346,6 +351,7 @@ protected:
   bool returnActivationDegree;
   bool returnClassesDegrees;
   int confidence;
+  std::vector<int> indexes;
   std::map<std::string, Cluster> clusters;
   Cluster unsupervisedCluster;
 };
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index a92da20..1982744 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -18,6 +18,9 @@ public:
         if(std::string(py::str(arg.first)).compare("completeAddressing") == 0)
           completeAddressing = arg.second.cast<bool>();
 
+        if(std::string(py::str(arg.first)).compare("indexes") == 0)
+          indexes = arg.second.cast<std::vector<int>>();
+
         if(std::string(py::str(arg.first)).compare("base") == 0)
           base = arg.second.cast<int>();
 
-- 
2.43.0


From 46e300874432befa9e5d400a9ce110ce0bbe9735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 43/46] fix: Discriminator accepts a BinInput in Python

---
 src/wisard_bind.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index b64e3f4..d45e292 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -55,11 +55,11 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<DiscriminatorWrapper>(m, "Discriminator")
       .def(py::init<std::string>())
       .def(py::init<int,int,py::kwargs>())
-      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::train)
+      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const std::vector<std::vector<int>>&)) &DiscriminatorWrapper::train)
-      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::classify)
+      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("jsonConfig",(std::string (DiscriminatorWrapper::*)())  &DiscriminatorWrapper::jsonConfig)
       .def("json", (std::string (DiscriminatorWrapper::*)()) &DiscriminatorWrapper::json)
       .def("json", (std::string (DiscriminatorWrapper::*)(bool)) &DiscriminatorWrapper::json)
-- 
2.43.0


From 8d5ddbbe60857ce2614905455acacd569a6bc87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 44/46] fix: a deeply nested text is refused instead of
 overflowing the stack

---
 include/wisardpkg.hpp               | 21 ++++++++++++++++-----
 src/common/utils.cc                 | 11 +++++++++++
 src/models/cluswisard/cluswisard.cc |  4 ++--
 src/models/wisard/discriminator.cc  |  2 +-
 src/models/wisard/wisard.cc         |  4 ++--
 5 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 41dc312..373d914 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17358,6 +17358,17 @@ std::string toFileName(std::string label){
   return label;
 }
 
+// parses a saved text; its nesting is limited because the parser is recursive.
+inline nl::json parseConfig(const std::string& config){
+  const int maxDepth = 100;
+  return nl::json::parse(config, [maxDepth](int depth, nl::json::parse_event_t, nl::json&){
+    if(depth > maxDepth){
+      throw Exception("The configuration is nested too deeply!");
+    }
+    return true;
+  });
+}
+
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
   if(addressSize < 2){
     throw Exception("The address size cann't be lesser than 2!");
@@ -18486,7 +18497,7 @@ class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
   Discriminator(int entrySize):entrySize(entrySize),count(0){}
-  Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
+  Discriminator(std::string config): Discriminator(parseConfig(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
     nl::json value = config["count"];
@@ -18945,8 +18956,8 @@ public:
     returnClassesDegrees = value.is_null() ? false : value.get<bool>();
   }
 
-  Wisard(std::string config):Wisard(0,nl::json::parse(config)){
-    nl::json c = nl::json::parse(config);
+  Wisard(std::string config):Wisard(0,parseConfig(config)){
+    nl::json c = parseConfig(config);
     addressSize=c["addressSize"];
 
     nl::json classes = c["classes"];
@@ -19436,8 +19447,8 @@ public:
 
     checkConfigInputs(minScore, threshold, discriminatorsLimit);
   }
-  ClusWisard(std::string config):ClusWisard(0,0,1,1,nl::json::parse(config)){
-      nl::json c = nl::json::parse(config);
+  ClusWisard(std::string config):ClusWisard(0,0,1,1,parseConfig(config)){
+      nl::json c = parseConfig(config);
       addressSize = c["addressSize"];
       minScore = c["minScore"];
       threshold = c["threshold"];
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 007786e..6370b72 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -27,6 +27,17 @@ std::string toFileName(std::string label){
   return label;
 }
 
+// parses a saved text; its nesting is limited because the parser is recursive.
+inline nl::json parseConfig(const std::string& config){
+  const int maxDepth = 100;
+  return nl::json::parse(config, [maxDepth](int depth, nl::json::parse_event_t, nl::json&){
+    if(depth > maxDepth){
+      throw Exception("The configuration is nested too deeply!");
+    }
+    return true;
+  });
+}
+
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
   if(addressSize < 2){
     throw Exception("The address size cann't be lesser than 2!");
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 547b880..ffb87e3 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -45,8 +45,8 @@ public:
 
     checkConfigInputs(minScore, threshold, discriminatorsLimit);
   }
-  ClusWisard(std::string config):ClusWisard(0,0,1,1,nl::json::parse(config)){
-      nl::json c = nl::json::parse(config);
+  ClusWisard(std::string config):ClusWisard(0,0,1,1,parseConfig(config)){
+      nl::json c = parseConfig(config);
       addressSize = c["addressSize"];
       minScore = c["minScore"];
       threshold = c["threshold"];
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index cb6f045..200b917 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -3,7 +3,7 @@ class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
   Discriminator(int entrySize):entrySize(entrySize),count(0){}
-  Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
+  Discriminator(std::string config): Discriminator(parseConfig(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
     nl::json value = config["count"];
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 30fb2b6..f5102d7 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -43,8 +43,8 @@ public:
     returnClassesDegrees = value.is_null() ? false : value.get<bool>();
   }
 
-  Wisard(std::string config):Wisard(0,nl::json::parse(config)){
-    nl::json c = nl::json::parse(config);
+  Wisard(std::string config):Wisard(0,parseConfig(config)){
+    nl::json c = parseConfig(config);
     addressSize=c["addressSize"];
 
     nl::json classes = c["classes"];
-- 
2.43.0


From 6f2914a1ddc2ef6ade47a671e46af86217531a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 45/46] fix: a data file is created exclusively, so that two
 concurrent saves never share one

---
 include/wisardpkg.hpp              | 10 +++++++++-
 src/base.h                         |  2 ++
 src/models/wisard/discriminator.cc |  8 +++++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 373d914..bc31897 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -15,6 +15,8 @@ https://github.com/IAZero/wisardpkg
 #include <vector>
 #include <map>
 #include <tuple>
+#include <cerrno>
+#include <cstdio>
 #include <cstdlib>
 #include <unordered_map>
 #include <algorithm>    // std::random_shuffle
@@ -18780,9 +18782,15 @@ protected:
     std::string data;
     if(huge){
       std::string filename;
+      std::FILE* created;
       do{
         filename = prefix + getRandomString(10) + ramdata_sufix;
-      }while(std::ifstream(filename).is_open());
+        errno = 0;
+        created = std::fopen(filename.c_str(), "wx");
+      }while(created == NULL && errno == EEXIST);
+      if(created != NULL){
+        std::fclose(created);
+      }
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
 
diff --git a/src/base.h b/src/base.h
index 95f372a..4a18667 100644
--- a/src/base.h
+++ b/src/base.h
@@ -4,6 +4,8 @@
 #include <vector>
 #include <map>
 #include <tuple>
+#include <cerrno>
+#include <cstdio>
 #include <cstdlib>
 #include <unordered_map>
 #include <algorithm>    // std::random_shuffle
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 200b917..d0b7131 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -286,9 +286,15 @@ protected:
     std::string data;
     if(huge){
       std::string filename;
+      std::FILE* created;
       do{
         filename = prefix + getRandomString(10) + ramdata_sufix;
-      }while(std::ifstream(filename).is_open());
+        errno = 0;
+        created = std::fopen(filename.c_str(), "wx");
+      }while(created == NULL && errno == EEXIST);
+      if(created != NULL){
+        std::fclose(created);
+      }
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
 
-- 
2.43.0


From ad1a3358851887d63338fd57f3f571d60417545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:06 +0000
Subject: [PATCH 46/46] fix: score of a cluster's discriminator summed the
 votes in single precision

From a sum of 2^24 on, an example that every RAM of a discriminator knows
equally well scored below 1 and was not learned by it.
---
 include/wisardpkg.hpp            | 2 +-
 src/models/cluswisard/cluster.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index bc31897..69866f9 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19261,7 +19261,7 @@ public:
 
   float getScore(const std::vector<int>& votes) const{
     int max = 0;
-    float sum = 0;
+    double sum = 0;
     for(auto v: votes){
       if(v>max) max=v;
       sum += v;
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index f13fea5..d290dc2 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -56,7 +56,7 @@ public:
 
   float getScore(const std::vector<int>& votes) const{
     int max = 0;
-    float sum = 0;
+    double sum = 0;
     for(auto v: votes){
       if(v>max) max=v;
       sum += v;
-- 
2.43.0

