From 55d6739ae74c63ebc01fa8baad0010cbadac18dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 01/26] fix: load RAM data and file names shorter than the file
 suffix

The suffix test computed size()-s with unsigned arithmetic, so the data of an
untrained model (an empty text) could not be loaded. An untrained RAM is kept
as an empty entry of the text instead of being left out.
---
 include/wisardpkg.hpp              | 19 ++++++++++---------
 src/common/utils.cc                |  4 ++++
 src/data/dataset.cc                |  3 +--
 src/models/wisard/discriminator.cc |  5 ++---
 src/models/wisard/ramdatahandle.cc |  7 +++----
 5 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5446a20..db326b8 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17398,6 +17398,10 @@ void print(T value, Args... args){
   print(args...);
 }
 
+inline bool hasSufix(const std::string& text, const std::string& sufix){
+  return text.size() >= sufix.size() && text.compare(text.size()-sufix.size(), sufix.size(), sufix) == 0;
+}
+
 class Base64 {
 public:
   // each character must be a char, just one byte.
@@ -17682,8 +17686,7 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!hasSufix(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
@@ -18103,8 +18106,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -18121,11 +18123,11 @@ private:
     else{
       int pos=0;
       unsigned int found = 0;
-      while(found < inputdata.size()){
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
@@ -18625,8 +18627,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -18676,7 +18677,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/common/utils.cc b/src/common/utils.cc
index d87aa8f..360eaf9 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -68,6 +68,10 @@ void print(T value, Args... args){
   print(args...);
 }
 
+inline bool hasSufix(const std::string& text, const std::string& sufix){
+  return text.size() >= sufix.size() && text.compare(text.size()-sufix.size(), sufix.size(), sufix) == 0;
+}
+
 class Base64 {
 public:
   // each character must be a char, just one byte.
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 6f312e8..f37aad9 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -2,8 +2,7 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!hasSufix(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 082b411..edaa722 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -222,8 +222,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -273,7 +272,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2a4fc73..37468e9 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -69,8 +69,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(hasSufix(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -87,11 +86,11 @@ private:
     else{
       int pos=0;
       unsigned int found = 0;
-      while(found < inputdata.size()){
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
-- 
2.43.0


From e91f978899a26f7c866083a526541d1313309446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 02/26] fix: decode the empty base64 text and reject texts of
 invalid size

Both cases read outside of the input, and the latter wrote outside of the output.
---
 include/wisardpkg.hpp | 4 ++++
 src/common/utils.cc   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index db326b8..c8c8c39 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17444,6 +17444,10 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The base64 data has an invalid size!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 360eaf9..8310495 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -114,6 +114,10 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("The base64 data has an invalid size!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
-- 
2.43.0


From d26d853552a08d68bb93f418acb42905cc3883c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 03/26] fix: reject BinInput data with an invalid number of
 unused bits

The size was computed from it, so get and set accessed memory outside of the input.
---
 include/wisardpkg.hpp | 3 +++
 src/data/bininput.cc  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c8c8c39..189238c 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17644,6 +17644,9 @@ public:
     int s = sizeof(char);
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (input.empty() && remain != 0)){
+      throw Exception("The data does not describe a BinInput!");
+    }
   }
 
   int operator[](index_size_t index) const {
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 332bc28..be45b30 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -17,6 +17,9 @@ public:
     int s = sizeof(char);
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (input.empty() && remain != 0)){
+      throw Exception("The data does not describe a BinInput!");
+    }
   }
 
   int operator[](index_size_t index) const {
-- 
2.43.0


From 3bc6f3a1c75ccfd77d06991c2a66567b594ffbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 04/26] fix: save data sets and RAM data to a fresh file and
 load empty data sets

Saving twice under one name appended to the file without a separator, which made
it unreadable; saving also gave unlabelled inputs a label.
---
 include/wisardpkg.hpp              | 8 +++++---
 src/data/dataset.cc                | 6 ++++--
 src/models/wisard/ramdatahandle.cc | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 189238c..0fbf3ef 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17704,6 +17704,7 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
+        if(input.empty()) break;
         int sharp = input.find("#");
         std::string label = Base64::decode(input.substr(0,sharp));
 
@@ -17749,10 +17750,11 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label == labels.end() ? "" : label->second) + "#" + data[i].data();
     }
 
     dataFile.close();
@@ -18100,7 +18102,7 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index f37aad9..fee9873 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -13,6 +13,7 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
+        if(input.empty()) break;
         int sharp = input.find("#");
         std::string label = Base64::decode(input.substr(0,sharp));
 
@@ -58,10 +59,11 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label == labels.end() ? "" : label->second) + "#" + data[i].data();
     }
 
     dataFile.close();
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 37468e9..762fd53 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -56,7 +56,7 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
-- 
2.43.0


From c406d5246a6b85026cfc61c1d8f4a718f6e57743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 05/26] fix: reject negative values in images

---
 include/wisardpkg.hpp    | 2 +-
 src/models/wisard/ram.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0fbf3ef..2a7d661 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18401,7 +18401,7 @@ private:
   }
 
   void checkPos(const int code) const{
-    if(code >= base){
+    if(code < 0 || code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
   }
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index cfc2a0e..49b73d2 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -172,7 +172,7 @@ private:
   }
 
   void checkPos(const int code) const{
-    if(code >= base){
+    if(code < 0 || code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
   }
-- 
2.43.0


From be31da3784e9c5aa5763efc0e303e5e9f5949586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 06/26] fix: check the limit of the address space for every
 base

The power was computed with 64 bits before comparing it with 2^64, so it wrapped
around and bases other than 2 were never rejected.
---
 include/wisardpkg.hpp    | 13 ++++++++++---
 src/models/wisard/ram.cc | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 2a7d661..aebd875 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18393,10 +18393,17 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    const addr_t digit = basein-1;
+    addr_t biggest = 0;
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit-digit)/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + digit;
     }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 49b73d2..c442694 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -164,10 +164,17 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    const addr_t digit = basein-1;
+    addr_t biggest = 0;
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit-digit)/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + digit;
     }
   }
 
-- 
2.43.0


From 82d0addf5123309d8bfcd247b1b13cffa6767140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 07/26] fix: mental images of addresses wider than an int

---
 include/wisardpkg.hpp    | 4 ++--
 src/models/wisard/ram.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index aebd875..4a89d62 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18382,9 +18382,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index c442694..ef168f9 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -153,9 +153,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
-- 
2.43.0


From c2e77d6c8a27e4067cc684c588cb737b287d4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 08/26] fix: reject indexes and mappings that refer outside of
 the entry

---
 include/wisardpkg.hpp              | 14 +++++++++++++-
 src/models/wisard/discriminator.cc | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4a89d62..6a37a85 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18430,6 +18430,7 @@ public:
     count = config["count"];
     std::string data = config["data"];
     nl::json mapping = config["mapping"];
+    checkMapping(mapping.get<std::vector<std::vector<int>>>());
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
@@ -18633,6 +18634,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -18765,6 +18767,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping) const{
+    for(unsigned int i=0; i<mapping.size(); i++){
+      for(unsigned int j=0; j<mapping[i].size(); j++){
+        if(mapping[i][j] < 0 || mapping[i][j] >= entrySize){
+          throw Exception("The mapping has a index out of range of entry!");
+        }
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -18772,7 +18784,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index edaa722..81c954d 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -9,6 +9,7 @@ public:
     count = config["count"];
     std::string data = config["data"];
     nl::json mapping = config["mapping"];
+    checkMapping(mapping.get<std::vector<std::vector<int>>>());
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
@@ -212,6 +213,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -344,6 +346,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping) const{
+    for(unsigned int i=0; i<mapping.size(); i++){
+      for(unsigned int j=0; j<mapping[i].size(); j++){
+        if(mapping[i][j] < 0 || mapping[i][j] >= entrySize){
+          throw Exception("The mapping has a index out of range of entry!");
+        }
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -351,7 +363,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
-- 
2.43.0


From ff137bcafa038b98dd8bf183534632df8fd1b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 09/26] fix: accept empty batches and reject an address size of
 zero

The first image was read before looking at the number of images, and the number
of RAMs was computed with a division by zero.
---
 include/wisardpkg.hpp               | 14 +++++++++++---
 src/common/utils.cc                 |  3 +++
 src/models/cluswisard/cluswisard.cc |  7 +++++--
 src/models/wisard/wisard.cc         |  4 +++-
 src/wrappers/cluswisardwrapper.cc   |  3 ++-
 src/wrappers/wisardwrapper.cc       |  3 ++-
 6 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6a37a85..0cfaa9b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17351,6 +17351,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 1!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
@@ -18876,6 +18879,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -18885,9 +18889,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
@@ -19331,9 +19336,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -19343,9 +19349,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -19377,6 +19384,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 8310495..feefd15 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -21,6 +21,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 1!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b255473..323a18d 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -77,9 +77,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -89,9 +90,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -123,6 +125,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 9fb8420..dfe730c 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -74,6 +74,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -83,9 +84,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 92c85ca..2ef8a0e 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -39,9 +39,10 @@ public:
   }
 
   py::list pyClassify(const std::vector<std::vector<int>>& images){
+    py::list labels(images.size());
+    if(images.size() == 0) return labels;
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
-    py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 2d55d87..617737f 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -91,9 +91,10 @@ protected:
 
   template<typename T>
   py::list _pyClassify(const T& images){
+    py::list labels(images.size());
+    if(images.size() == 0) return labels;
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
-    py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
-- 
2.43.0


From 727d489f813822ec33e2c63f09f2e7171d4c8609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 10/26] fix: ambiguity of bleaching independent of the order of
 the classes

With a confidence bigger than one, the runner-up was ignored when its label came
before the label of the winner.
---
 include/wisardpkg.hpp   | 9 +++++----
 src/common/bleaching.cc | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0cfaa9b..7aa6b52 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17547,16 +17547,17 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = candidates.size() > 1 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 56f417b..474ccfc 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -62,16 +62,17 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        secondBiggest = biggest;
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+      else if(i->second > secondBiggest){
+        secondBiggest = i->second;
       }
     }
+    bool ambiguity = candidates.size() > 1 && (biggest - secondBiggest) < confidence;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
-- 
2.43.0


From ac9349acf666a470b287026e2c3fb826d552bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 11/26] fix: confidence of a classification in which no RAM
 fired is 0, not NaN

---
 include/wisardpkg.hpp   | 1 +
 src/common/bleaching.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7aa6b52..6bfeaff 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17535,6 +17535,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 474ccfc..a3078f7 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -50,6 +50,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
-- 
2.43.0


From 3665c71ef05f42b194d1128fa86df2098a9df934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 12/26] fix: activation degree uses the number of RAMs of the
 class

The number of RAMs was derived from the address size, which is wrong with an
explicit mapping or explicit indexes; an untrained model also got a made-up class.
---
 src/wrappers/cluswisardwrapper.cc |  7 +++++--
 src/wrappers/wisardwrapper.cc     | 16 +++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 2ef8a0e..cb6db07 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -53,13 +53,16 @@ public:
         labels[i] = py::dict(py::arg("class")=aClass);
       }
 
+      auto winner = candidates.find(label);
+      int score = winner == candidates.end() ? 0 : winner->second;
+
       if(returnActivationDegree){
-        float activationDegree = candidates[label]/numberOfRAMS;
+        float activationDegree = numberOfRAMS == 0 ? 0 : score/numberOfRAMS;
         labels[i]["activationDegree"]=activationDegree;
       }
 
       if(returnConfidence){
-        float confidence = Bleaching::getConfidence(candidates, candidates[label]);
+        float confidence = Bleaching::getConfidence(candidates, score);
         labels[i]["confidence"]=confidence;
       }
 
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 617737f..ed0ead8 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -43,18 +43,23 @@ public:
     }
   }
 
-  void setClassifyOutput(py::list& labels, int i, std::string aClass, float numberOfRAMS, std::map<std::string,int>& candidates){
+  void setClassifyOutput(py::list& labels, int i, std::string aClass, std::map<std::string,int>& candidates){
+    auto winner = candidates.find(aClass);
+    int score = winner == candidates.end() ? 0 : winner->second;
+
     if(returnConfidence || returnActivationDegree || returnClassesDegrees){
       labels[i] = py::dict(py::arg("class")=aClass);
     }
 
     if(returnActivationDegree){
-      float activationDegree = candidates[aClass]/numberOfRAMS;
+      auto d = discriminators.find(aClass);
+      float numberOfRAMS = d == discriminators.end() ? 0 : d->second.getNumberOfRAMS();
+      float activationDegree = numberOfRAMS == 0 ? 0 : score/numberOfRAMS;
       labels[i]["activationDegree"]=activationDegree;
     }
 
     if(returnConfidence){
-      float confidence = Bleaching::getConfidence(candidates, candidates[aClass]);
+      float confidence = Bleaching::getConfidence(candidates, score);
       labels[i]["confidence"]=confidence;
     }
 
@@ -92,14 +97,11 @@ protected:
   template<typename T>
   py::list _pyClassify(const T& images){
     py::list labels(images.size());
-    if(images.size() == 0) return labels;
-    float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
       std::string aClass = Bleaching::getBiggestCandidate(candidates);
-      setClassifyOutput(labels, i, aClass, numberOfRAMS, candidates);
+      setClassifyOutput(labels, i, aClass, candidates);
     }
     if(verbose) std::cout << "\r" << std::endl;
     return labels;
-- 
2.43.0


From 775181a30b791d8ebd12ef8da66bb4ee644e8f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 13/26] fix: semi-supervised training trains the images without
 a label

It trained the first images of the batch instead, and wrote outside of the list
of unlabelled images when a label named an image that does not exist.
---
 include/wisardpkg.hpp               | 13 +++----------
 src/models/cluswisard/cluswisard.cc | 13 +++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6bfeaff..df85731 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19356,18 +19356,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -19379,7 +19372,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 323a18d..bfde1e9 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -95,18 +95,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -118,7 +111,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-- 
2.43.0


From 7c905e474bce9aa7757ceb02fc198929d14d7b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 14/26] fix: ClusWisard labels that contain the separator of
 the discriminator index

The label was cut at its first '::' instead of the last one, which the library adds.
---
 include/wisardpkg.hpp               | 6 +++---
 src/models/cluswisard/cluswisard.cc | 6 +++---
 src/wrappers/cluswisardwrapper.cc   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index df85731..0fdf5ce 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19396,7 +19396,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19411,7 +19411,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19479,7 +19479,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index bfde1e9..c38a17b 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -135,7 +135,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -150,7 +150,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -218,7 +218,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index cb6db07..c9775b8 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -47,7 +47,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      std::string aClass = label.substr(0,label.find("::"));
+      std::string aClass = label.substr(0,label.rfind("::"));
 
       if(returnConfidence || returnActivationDegree || returnClassesDegrees){
         labels[i] = py::dict(py::arg("class")=aClass);
@@ -89,7 +89,7 @@ protected:
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;
     if(total == 0) total=1;
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i){
-      std::string aClass = i->first.substr(0,i->first.find("::"));
+      std::string aClass = i->first.substr(0,i->first.rfind("::"));
       output[index] = py::dict(py::arg("class")=aClass, py::arg("degree")=(i->second/total));
       index++;
     }
-- 
2.43.0


From 405d0b5a122c6422b581797732502b900eb54d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 15/26] fix: unsupervised training uses its own settings and
 keeps what it learned

The base was not passed on, every call started over unless there were supervised
classes, and with supervised classes the cluster was used uninitialised.
---
 include/wisardpkg.hpp               | 6 +++---
 src/models/cluswisard/cluster.cc    | 2 +-
 src/models/cluswisard/cluswisard.cc | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0fdf5ce..7e21692 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19075,7 +19075,7 @@ protected:
 
 class Cluster {
 public:
-  Cluster(){}
+  Cluster(): addressSize(2), entrySize(2), minScore(0), threshold(1), discriminatorsLimit(1), completeAddressing(true), ignoreZero(false), base(2){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
     int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
@@ -19380,8 +19380,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 8f059ae..c3431ac 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -1,7 +1,7 @@
 
 class Cluster {
 public:
-  Cluster(){}
+  Cluster(): addressSize(2), entrySize(2), minScore(0), threshold(1), discriminatorsLimit(1), completeAddressing(true), ignoreZero(false), base(2){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
     int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index c38a17b..b53c85c 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -119,8 +119,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
-- 
2.43.0


From 73fe4561b06413f414646d8b2439e4e666c7bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 16/26] fix: asking for the mental image of an unknown class
 does not create the class

---
 include/wisardpkg.hpp               | 4 +++-
 src/models/cluswisard/cluswisard.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 7e21692..0095045 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19421,7 +19421,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b53c85c..00328dc 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -160,7 +160,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
-- 
2.43.0


From 2f08d42da15dc46feb0c060a10a866ff5387d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 17/26] fix: reject a min score or an activation degree that is
 not a number

---
 include/wisardpkg.hpp               | 4 ++--
 src/binarization/kernelcanvas.cc    | 2 +-
 src/models/cluswisard/cluswisard.cc | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0095045..11ca80a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18040,7 +18040,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
@@ -19520,7 +19520,7 @@ protected:
   }
 
   void checkConfigInputs(const float minScore, const int threshold, const int discriminatorsLimit){
-    if(minScore < 0 || minScore > 1){
+    if(!(minScore >= 0 && minScore <= 1)){
       throw Exception("min score must be between 0 and 1 inclusive!");
     }
     if(threshold < 1){
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 962f121..c6cfc03 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -209,7 +209,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 00328dc..35b2835 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -259,7 +259,7 @@ protected:
   }
 
   void checkConfigInputs(const float minScore, const int threshold, const int discriminatorsLimit){
-    if(minScore < 0 || minScore > 1){
+    if(!(minScore >= 0 && minScore <= 1)){
       throw Exception("min score must be between 0 and 1 inclusive!");
     }
     if(threshold < 1){
-- 
2.43.0


From 5377208c8569c7b8409108cb497547319249cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 18/26] fix: load the text of jsonConfig

It has neither a training counter nor RAM contents, which loading required.
---
 include/wisardpkg.hpp              | 6 +++---
 src/models/wisard/discriminator.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 11ca80a..3aeb0f0 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18428,12 +18428,12 @@ private:
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    count = config["count"].is_null() ? 0 : config["count"].get<int>();
+    std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
     checkMapping(mapping.get<std::vector<std::vector<int>>>());
     nl::json rbase = {
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 81c954d..148e1c7 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -2,12 +2,12 @@
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    count = config["count"].is_null() ? 0 : config["count"].get<int>();
+    std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
     checkMapping(mapping.get<std::vector<std::vector<int>>>());
     nl::json rbase = {
-- 
2.43.0


From 0224d20a9a5fb293a8c2d26125c1ef97cf1ea980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 19/26] fix: reading a RAMDataHandle does not add cells, and
 64-bit addresses can be named

---
 include/wisardpkg.hpp              | 11 +++++++----
 src/models/wisard/ramdatahandle.cc | 11 +++++++----
 src/wisard_bind.cc                 |  2 +-
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 3aeb0f0..f37d1f4 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18058,15 +18058,18 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    return ramdata[r][addr];
+  int get(int r, addr_t addr){
+    ram_t ram = get(r);
+    ram_t::iterator it = ram.find(addr);
+    return it == ram.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    std::unordered_map<int,ram_t>::iterator it = ramdata.find(r);
+    return it == ramdata.end() ? ram_t() : it->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
     ramdata[r][addr] = value;
   }
 
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 762fd53..f23a883 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -7,15 +7,18 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    return ramdata[r][addr];
+  int get(int r, addr_t addr){
+    ram_t ram = get(r);
+    ram_t::iterator it = ram.find(addr);
+    return it == ram.end() ? 0 : it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    std::unordered_map<int,ram_t>::iterator it = ramdata.find(r);
+    return it == ramdata.end() ? ram_t() : it->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
     ramdata[r][addr] = value;
   }
 
diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 564927f..b64e3f4 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -44,7 +44,7 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<RAMDataHandle>(m, "RAMDataHandle")
       .def(py::init<std::string>())
       .def("set", &RAMDataHandle::set)
-      .def("get", (int (RAMDataHandle::*)(int,int)) &RAMDataHandle::get)
+      .def("get", (int (RAMDataHandle::*)(int,addr_t)) &RAMDataHandle::get)
       .def("get", (ram_t (RAMDataHandle::*)(int)) &RAMDataHandle::get)
       .def("data", (std::string (RAMDataHandle::*)()) &RAMDataHandle::data)
       .def("data", (std::string (RAMDataHandle::*)(int)) &RAMDataHandle::data)
-- 
2.43.0


From 516683039ae08b7410bb4157fa1e7c2d830ade27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 20/26] fix: synthesize from an all-zero mental image without
 dividing by zero

---
 include/wisardpkg.hpp              | 1 +
 src/synthetic_data/synthesizers.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f37d1f4..fe1237a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17779,6 +17779,7 @@ public:
   }
 
   std::vector<int> make(){
+    if(maxData == 0) return std::vector<int>(cube.size(), 0);
     int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
 
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 21c917b..60d2b57 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -8,6 +8,7 @@ public:
   }
 
   std::vector<int> make(){
+    if(maxData == 0) return std::vector<int>(cube.size(), 0);
     int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
 
-- 
2.43.0


From 89825989e957c260c7eb7f7f0372c99892ebf0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 21/26] fix: keep the mapping of a Wisard in its saved text

Classes first trained after a reload got a random mapping instead of the configured one.
---
 include/wisardpkg.hpp       | 1 +
 src/models/wisard/wisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index fe1237a..52c7d8e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19020,6 +19020,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index dfe730c..1776dfe 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -209,6 +209,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
-- 
2.43.0


From bd6080936246ae420857fabb86e00fbf0f8ea9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 22/26] fix: KernelCanvas stays inside of its points and keeps
 its dimension

---
 include/wisardpkg.hpp            | 19 ++++++++++---------
 src/binarization/kernelcanvas.cc | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 52c7d8e..07483d3 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17833,7 +17833,7 @@ class BinBase {
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
@@ -17849,6 +17849,7 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -17863,7 +17864,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
@@ -17937,8 +17937,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -17956,7 +17956,7 @@ protected:
           int ix = indexes[pi]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
+          if(j%amplifyDim == amplifyDim-1) pi++;
         }
       }
       else{
@@ -17985,7 +17985,7 @@ protected:
     const std::vector<double>& means,
     const std::vector<double>& stds,
     std::vector<int>& indexes,
-    bool first){
+    bool& first){
 
     if(useDirection){
       int ix = switchIndexes(indexes);
@@ -17999,7 +17999,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -18012,7 +18012,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -18022,9 +18022,10 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
+        first = false;
       }
     }
     else{
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index c6cfc03..65e42bf 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -1,7 +1,7 @@
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
@@ -17,6 +17,7 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -31,7 +32,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
@@ -105,8 +105,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -124,7 +124,7 @@ protected:
           int ix = indexes[pi]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
+          if(j%amplifyDim == amplifyDim-1) pi++;
         }
       }
       else{
@@ -153,7 +153,7 @@ protected:
     const std::vector<double>& means,
     const std::vector<double>& stds,
     std::vector<int>& indexes,
-    bool first){
+    bool& first){
 
     if(useDirection){
       int ix = switchIndexes(indexes);
@@ -167,7 +167,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -180,7 +180,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -190,9 +190,10 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
+        first = false;
       }
     }
     else{
-- 
2.43.0


From a058bf88de86a6ee8b9cef6ad87f897a4cf39a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 23/26] fix: labels with path separators in the names of RAM
 data files

---
 include/wisardpkg.hpp               | 13 +++++++++++--
 src/common/utils.cc                 |  9 +++++++++
 src/models/cluswisard/cluswisard.cc |  2 +-
 src/models/wisard/wisard.cc         |  2 +-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 07483d3..84f5dec 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17374,6 +17374,15 @@ long long ipow(long long base, long long exp){
   return result;
 }
 
+// the separators of folders would make of a label another path
+inline std::string labelToFileName(const std::string& label){
+  std::string name(label);
+  for(unsigned int i=0; i<name.size(); i++){
+    if(name[i] == '/' || name[i] == '\\' || name[i] == '\0') name[i] = '_';
+  }
+  return name;
+}
+
 template <typename T>
 std::string convertToBytes(T value)
 {
@@ -19002,7 +19011,7 @@ protected:
   nl::json getClassesJSON(bool huge, std::string path){
     nl::json c;
     for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      c[d->first] = d->second.getJSON(huge,path+(d->first)+"__");
+      c[d->first] = d->second.getJSON(huge,path+labelToFileName(d->first)+"__");
     }
     return c;
   }
@@ -19556,7 +19565,7 @@ protected:
   nl::json getClustersJson(bool huge, std::string path){
     nl::json config;
     for(std::map<std::string,Cluster>::iterator i=clusters.begin(); i!=clusters.end(); ++i){
-      config[i->first] = i->second.getJson(huge,path+(i->first)+"__");
+      config[i->first] = i->second.getJson(huge,path+labelToFileName(i->first)+"__");
     }
     return config;
   }
diff --git a/src/common/utils.cc b/src/common/utils.cc
index feefd15..3a074b9 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -44,6 +44,15 @@ long long ipow(long long base, long long exp){
   return result;
 }
 
+// the separators of folders would make of a label another path
+inline std::string labelToFileName(const std::string& label){
+  std::string name(label);
+  for(unsigned int i=0; i<name.size(); i++){
+    if(name[i] == '/' || name[i] == '\\' || name[i] == '\0') name[i] = '_';
+  }
+  return name;
+}
+
 template <typename T>
 std::string convertToBytes(T value)
 {
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 35b2835..00926df 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -289,7 +289,7 @@ protected:
   nl::json getClustersJson(bool huge, std::string path){
     nl::json config;
     for(std::map<std::string,Cluster>::iterator i=clusters.begin(); i!=clusters.end(); ++i){
-      config[i->first] = i->second.getJson(huge,path+(i->first)+"__");
+      config[i->first] = i->second.getJson(huge,path+labelToFileName(i->first)+"__");
     }
     return config;
   }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 1776dfe..b0950b2 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -190,7 +190,7 @@ protected:
   nl::json getClassesJSON(bool huge, std::string path){
     nl::json c;
     for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      c[d->first] = d->second.getJSON(huge,path+(d->first)+"__");
+      c[d->first] = d->second.getJSON(huge,path+labelToFileName(d->first)+"__");
     }
     return c;
   }
-- 
2.43.0


From 4ed7e58a6bb30814913873547bb5d65f685cfed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 24/26] fix: asking a RAMDataHandle for the text of a RAM does
 not add the RAM

---
 include/wisardpkg.hpp              | 5 +++--
 src/models/wisard/ramdatahandle.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 84f5dec..dc6bb81 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18108,9 +18108,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index f23a883..32fc340 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -46,9 +46,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
-- 
2.43.0


From 934cdb92cdd6b5955f1fefaaaf3b34bdd7451a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 25/26] fix: RAM data files of a model never reuse the file of
 another one

---
 include/wisardpkg.hpp              | 7 +++++--
 src/models/wisard/discriminator.cc | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index dc6bb81..72424d5 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18702,9 +18702,12 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename;
+      do{
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }while(std::ifstream(filename).is_open());
       std::ofstream dataFile;
-      dataFile.open(filename, std::ios::app);
+      dataFile.open(filename);
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 148e1c7..a77360f 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -261,9 +261,12 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename;
+      do{
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }while(std::ifstream(filename).is_open());
       std::ofstream dataFile;
-      dataFile.open(filename, std::ios::app);
+      dataFile.open(filename);
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
-- 
2.43.0


From 8b4e233f94971081e52a8cd968b6df737d32210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:31 +0000
Subject: [PATCH 26/26] fix: copies of a ClusWisard have their own
 discriminators

---
 include/wisardpkg.hpp            | 35 +++++++++++++++++++++++++++++++-
 src/models/cluswisard/cluster.cc | 35 +++++++++++++++++++++++++++++++-
 2 files changed, 68 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 72424d5..b62cd5a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19141,6 +19141,18 @@ public:
     }
   }
 
+  Cluster(const Cluster& other){
+    copy(other);
+  }
+
+  Cluster& operator=(const Cluster& other){
+    if(this != &other){
+      deleteDiscriminators();
+      copy(other);
+    }
+    return *this;
+  }
+
   float getScore(const std::vector<int>& votes) const{
     int max = 0;
     float sum = 0;
@@ -19208,7 +19220,7 @@ public:
   }
 
   ~Cluster(){
-    discriminators.clear();
+    deleteDiscriminators();
   }
 
 private:
@@ -19222,6 +19234,27 @@ private:
   bool ignoreZero;
   int base;
 
+  void copy(const Cluster& other){
+    addressSize = other.addressSize;
+    entrySize = other.entrySize;
+    minScore = other.minScore;
+    threshold = other.threshold;
+    discriminatorsLimit = other.discriminatorsLimit;
+    completeAddressing = other.completeAddressing;
+    ignoreZero = other.ignoreZero;
+    base = other.base;
+    for(std::map<int, Discriminator*>::const_iterator d=other.discriminators.begin(); d!=other.discriminators.end(); ++d){
+      discriminators[d->first] = new Discriminator(*d->second);
+    }
+  }
+
+  void deleteDiscriminators(){
+    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      delete d->second;
+    }
+    discriminators.clear();
+  }
+
   void makeDiscriminator(const int index){
     discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index c3431ac..b352911 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -48,6 +48,18 @@ public:
     }
   }
 
+  Cluster(const Cluster& other){
+    copy(other);
+  }
+
+  Cluster& operator=(const Cluster& other){
+    if(this != &other){
+      deleteDiscriminators();
+      copy(other);
+    }
+    return *this;
+  }
+
   float getScore(const std::vector<int>& votes) const{
     int max = 0;
     float sum = 0;
@@ -115,7 +127,7 @@ public:
   }
 
   ~Cluster(){
-    discriminators.clear();
+    deleteDiscriminators();
   }
 
 private:
@@ -129,6 +141,27 @@ private:
   bool ignoreZero;
   int base;
 
+  void copy(const Cluster& other){
+    addressSize = other.addressSize;
+    entrySize = other.entrySize;
+    minScore = other.minScore;
+    threshold = other.threshold;
+    discriminatorsLimit = other.discriminatorsLimit;
+    completeAddressing = other.completeAddressing;
+    ignoreZero = other.ignoreZero;
+    base = other.base;
+    for(std::map<int, Discriminator*>::const_iterator d=other.discriminators.begin(); d!=other.discriminators.end(); ++d){
+      discriminators[d->first] = new Discriminator(*d->second);
+    }
+  }
+
+  void deleteDiscriminators(){
+    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      delete d->second;
+    }
+    discriminators.clear();
+  }
+
   void makeDiscriminator(const int index){
     discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
-- 
2.43.0

