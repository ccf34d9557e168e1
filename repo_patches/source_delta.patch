From fe2dc5917657bc45da31267553273002b2fef72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 01/89] fix: store HDF5 name attributes at their own length

A fixed length of 64 cut long lists of names short and made HDF5 read past
the end of shorter strings.
---
 src/data/IO.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index a850d95..cf8e7f9 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -15,6 +15,18 @@
 
 const char IO::fDelimiter = ':';
 
+namespace
+{
+    // Strings are stored at their own length: a fixed length would cut long ones short, and
+    // for short ones HDF5 would read past the end of the string
+    void WriteStringAttribute(const H5::DataSet &dataSet_, const std::string &attName_, const std::string &val_)
+    {
+        H5::StrType strType(H5::PredType::C_S1, val_.size() + 1);
+        H5::Attribute att = dataSet_.createAttribute(attName_, strType, H5::DataSpace(H5S_SCALAR));
+        att.write(strType, val_);
+    }
+}
+
 std::string
 IO::GetExt(const std::string &path_)
 {
@@ -100,11 +112,9 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     H5::DataSet theData(file.createDataSet("observations", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     //  Set up the attributes - the number of obs per event and the names of the observables
-    //  64 chars max in str to save space
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    WriteStringAttribute(theData, "observed_quantities", FlattenStringVector(observableNames));
+
     H5::DataSpace attSpace(H5S_SCALAR);
-    H5::Attribute obsListAtt = theData.createAttribute("observed_quantities", strType, attSpace);
-    obsListAtt.write(strType, FlattenStringVector(observableNames));
 
     H5::Attribute countAtt = theData.createAttribute("n_observables",
                                                      H5::PredType::NATIVE_INT,
@@ -355,16 +365,11 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     }
 
     // save axes names and latex names
-    H5::StrType strType(H5::PredType::C_S1, 64);
-    H5::DataSpace attSpace(H5S_SCALAR);
-
-    H5::Attribute nameListAtt = theData.createAttribute("axis_names", strType, attSpace);
-    nameListAtt.write(strType, FlattenStringVector(axisNames));
-
-    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", strType, attSpace);
-    latexNameListAtt.write(strType, FlattenStringVector(axisLatexNames));
+    WriteStringAttribute(theData, "axis_names", FlattenStringVector(axisNames));
+    WriteStringAttribute(theData, "axis_latex_names", FlattenStringVector(axisLatexNames));
 
     // save nbins, ndims
+    H5::DataSpace attSpace(H5S_SCALAR);
     H5::Attribute dimAtt = theData.createAttribute("n_dims",
                                                    H5::PredType::NATIVE_INT,
                                                    attSpace);
-- 
2.43.0


From 440ec9f671e7493f672cad958bdc7d1910043981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 02/89] fix: refuse to save names that contain the delimiter

They were written and came back as different names.
---
 src/data/IO.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index cf8e7f9..9e2d21d 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -280,6 +280,10 @@ IO::FlattenStringVector(const std::vector<std::string> &vec_)
     if (!vec_.size())
         return flatString;
 
+    for (size_t i = 0; i < vec_.size(); i++)
+        if (vec_.at(i).find(fDelimiter) != std::string::npos)
+            throw IOError("IO:: can't save the name " + vec_.at(i) + ", it contains the delimiter " + fDelimiter);
+
     flatString += vec_.at(0);
     for (size_t i = 1; i < vec_.size(); i++)
         flatString += fDelimiter + vec_.at(i);
-- 
2.43.0


From d7c2723b4ff6c809f701c9b674826729e478f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 03/89] fix: save and load data sets without events

Both threw std::out_of_range, the save after it had created the file; loading
a set without observables divided by zero.
---
 src/data/IO.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 9e2d21d..c760344 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -162,7 +162,8 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
             eventData = dataSet_.GetEntry(j).GetData();
             flattenedData.insert(flattenedData.end(), eventData.begin(), eventData.end());
         }
-        theData.write(&flattenedData.at(0), H5::PredType::NATIVE_DOUBLE, mspace, dataSpace);
+        if (flattenedData.size())
+            theData.write(&flattenedData.at(0), H5::PredType::NATIVE_DOUBLE, mspace, dataSpace);
     } // slab loop
 }
 
@@ -196,19 +197,21 @@ IO::LoadDataSet(const std::string &filename_)
     OXSXDataSet *oxsxDataSet = new OXSXDataSet;
 
     // Set the variable names
-    oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
+    if (nObs)
+        oxsxDataSet->SetObservableNames(UnpackString(strreadbuf));
 
     // Read data out as 1D array
     hsize_t nData = 0;
     dataSet.getSpace().getSimpleExtentDims(&nData, NULL);
-    size_t nEntries = nData / nObs;
+    size_t nEntries = nObs ? nData / nObs : 0;
     oxsxDataSet->Reserve(nEntries);
 
     // if the data set is small, just load it up all in one go
     if (nEntries < 1000000)
     {
         std::vector<double> flatData(nData, 0);
-        dataSet.read(&flatData.at(0), H5::PredType::NATIVE_DOUBLE);
+        if (flatData.size())
+            dataSet.read(&flatData.at(0), H5::PredType::NATIVE_DOUBLE);
 
         std::vector<double> oneEventObs(nObs, 0);
         for (size_t i = 0; i < nEntries; i++)
-- 
2.43.0


From 43ab3ebb9fc79e82b5e76d1bb6afb5721a3d8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 04/89] fix: report HDF5 saves that fail and keep them from
 spoiling the target

Errors while HDF5 flushed and closed the file were swallowed, and a save that
failed or was interrupted left zeros that loaded as data and destroyed an
older file of that name.
---
 src/data/IO.cpp | 66 ++++++++++++++++++++++++++++++++++++++++++++-----
 src/data/IO.h   |  7 ++++++
 2 files changed, 67 insertions(+), 6 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index c760344..752ddf8 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -4,6 +4,7 @@
 #include <H5Cpp.h>
 #include <iostream>
 #include <cassert>
+#include <cstdio>
 #include <Exceptions.h>
 #include <Histogram.h>
 #include <Formatter.hpp>
@@ -25,6 +26,50 @@ namespace
         H5::Attribute att = dataSet_.createAttribute(attName_, strType, H5::DataSpace(H5S_SCALAR));
         att.write(strType, val_);
     }
+
+    // Writes beside the target and moves the file into place once it is complete, so that a save that
+    // fails is reported and neither destroys an older file nor leaves a half written one that can be loaded
+    template <typename Writer>
+    void SaveH5(const std::string &filename_, Writer write_)
+    {
+        const std::string partName = filename_ + ".part";
+        // the C handle, because HDF5 can't stand a second attempt by the destructor after a close that fails
+        const hid_t fileId = H5Fcreate(partName.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+        if (fileId < 0)
+        {
+            std::remove(partName.c_str());
+            throw IOError("Failed to create file : " + partName);
+        }
+        try
+        {
+            H5::H5File file(fileId);
+            write_(file);
+        }
+        catch (const H5::Exception &e_)
+        {
+            H5Fclose(fileId);
+            std::remove(partName.c_str());
+            throw IOError("Failed to save " + filename_ + " : " + e_.getDetailMsg());
+        }
+        catch (...)
+        {
+            H5Fclose(fileId);
+            std::remove(partName.c_str());
+            throw;
+        }
+
+        if (H5Fclose(fileId) < 0)
+        {
+            std::remove(partName.c_str());
+            throw IOError("Failed to save " + filename_ + " : can't finish writing the file");
+        }
+
+        if (std::rename(partName.c_str(), filename_.c_str()))
+        {
+            std::remove(partName.c_str());
+            throw IOError("Failed to save " + filename_ + " : can't move it into place");
+        }
+    }
 }
 
 std::string
@@ -91,6 +136,11 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
 }
 
 void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
+{
+    SaveH5(filename_, [&](H5::H5File &file_) { WriteDataSetH5(dataSet_, file_); });
+}
+
+void IO::WriteDataSetH5(const DataSet &dataSet_, H5::H5File &file)
 {
     // Get the relevant params
     hsize_t nEntries = dataSet_.GetNEntries();
@@ -102,8 +152,6 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     if (observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
 
-    // Set up files
-    H5::H5File file(filename_, H5F_ACC_TRUNC);
     // Set up the data set
     // 1D, ndata long, called "observations". Saved as native doubles on this computer
     H5::DataSpace dataSpace(1, &nData);
@@ -165,6 +213,9 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
         if (flattenedData.size())
             theData.write(&flattenedData.at(0), H5::PredType::NATIVE_DOUBLE, mspace, dataSpace);
     } // slab loop
+
+    // push out what HDF5 still buffers while errors can be seen: closing the data set hides them
+    file.flush(H5F_SCOPE_GLOBAL);
 }
 
 OXSXDataSet *
@@ -350,14 +401,16 @@ void IO::SaveHistogramROOT(const Histogram &hist_, const std::string &filename_,
 }
 
 void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
+{
+    SaveH5(fileName_, [&](H5::H5File &file_) { WriteHistogramH5(histo_, file_); });
+}
+
+void IO::WriteHistogramH5(const Histogram &histo_, H5::H5File &file)
 {
     hsize_t nDims[] = {histo_.GetNDims()};
     hsize_t nBins[] = {histo_.GetNBins()};
     std::vector<double> contents = histo_.GetBinContents();
 
-    // create the file
-    H5::H5File file(fileName_, H5F_ACC_TRUNC);
-
     // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
     H5::DataSpace dataSpace(1, nBins);
     H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
@@ -408,7 +461,8 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     // now save the bin contents
     theData.write(&contents[0], H5::PredType::NATIVE_DOUBLE, dataSpace);
 
-    return;
+    // push out what HDF5 still buffers while errors can be seen: closing the data set hides them
+    file.flush(H5F_SCOPE_GLOBAL);
 }
 
 Histogram
diff --git a/src/data/IO.h b/src/data/IO.h
index 7a87064..a635f55 100644
--- a/src/data/IO.h
+++ b/src/data/IO.h
@@ -14,6 +14,11 @@ class OXSXDataSet;
 class DataSet;
 class Histogram;
 
+namespace H5
+{
+   class H5File;
+}
+
 class IO
 {
 public:
@@ -30,6 +35,8 @@ public:
 
 private:
    static std::string GetExt(const std::string &);
+   static void WriteDataSetH5(const DataSet &, H5::H5File &);
+   static void WriteHistogramH5(const Histogram &, H5::H5File &);
    const static char fDelimiter;
 
    // used for combining and unpacking the observable names into a delimited string for hdf5 attr
-- 
2.43.0


From f4dbfa66f9414e6b1d5f1be4f1a2d587c1a0e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 05/89] fix: free the partly loaded data set when loading fails

---
 src/data/IO.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 752ddf8..f391817 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <cassert>
 #include <cstdio>
+#include <memory>
 #include <Exceptions.h>
 #include <Histogram.h>
 #include <Formatter.hpp>
@@ -245,7 +246,7 @@ IO::LoadDataSet(const std::string &filename_)
     countAtt.read(countAtt.getDataType(), &nObs);
 
     // Assemble into an OXSX data set
-    OXSXDataSet *oxsxDataSet = new OXSXDataSet;
+    std::unique_ptr<OXSXDataSet> oxsxDataSet(new OXSXDataSet);
 
     // Set the variable names
     if (nObs)
@@ -324,7 +325,7 @@ IO::LoadDataSet(const std::string &filename_)
         }
 
     } // else..
-    return oxsxDataSet;
+    return oxsxDataSet.release();
 }
 
 std::string
-- 
2.43.0


From 9bf27f5081ed67eba9a933686e052f3f415a34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 06/89] fix: throw when a text report can't be written

FitResult, CutLog and CountingResult SaveAs ignored every error (the check in
CutLog looked at the stream before it was opened).
---
 src/count/CountingResult.cpp | 4 ++++
 src/cut/CutLog.cpp           | 6 ++++--
 src/optimise/FitResult.cpp   | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index 768d6f2..d29ef79 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -1,4 +1,5 @@
 #include <CountingResult.h>
+#include <Exceptions.h>
 #include <Formatter.hpp>
 #include <Comparison.hpp>
 #include <utility>
@@ -104,6 +105,9 @@ void CountingResult::SaveAs(const std::string &fileName_)
        << "-----------------------------------" << std::endl
        << std::endl
        << AsString();
+    fs.close();
+    if (!fs)
+        throw IOError("CountingResult::SaveAs - couldn't write file " + fileName_);
 }
 std::string
 CountingResult::AsString()
diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 514ea05..0c74b8d 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -120,11 +120,11 @@ void CutLog::SaveAs(const std::string &title_,
                     const std::string &path_)
 {
     std::ofstream fs;
-    if (fs.is_open())
+    fs.open(path_.c_str());
+    if (!fs.is_open())
     {
         throw IOError("CutLog::SaveAs - couldn't open file" + path_);
     }
-    fs.open(path_.c_str());
     fs << "-----------------------------------"
        << "-----------------------------------"
        << std::endl
@@ -136,4 +136,6 @@ void CutLog::SaveAs(const std::string &title_,
        << "-----------------------------------"
        << std::endl;
     fs.close();
+    if (!fs)
+        throw IOError("CutLog::SaveAs - couldn't write file " + path_);
 }
diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index c89f4e1..3839ebc 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -100,6 +100,8 @@ void FitResult::SaveAs(const std::string &fileName_) const
     fs.open(fileName_.c_str());
     fs << AsString();
     fs.close();
+    if (!fs)
+        throw IOError("FitResult::SaveAs - couldn't write file " + fileName_);
 }
 
 std::string
-- 
2.43.0


From e45b4c7dfaee9745bc1191085163979f087338f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 07/89] fix: report running out of memory while text is
 formatted

String streams swallow std::bad_alloc, reports were silently cut short.
---
 src/core/Formatter.hpp     | 2 +-
 src/optimise/FitResult.cpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Formatter.hpp b/src/core/Formatter.hpp
index 0ff0280..7b7c2b9 100644
--- a/src/core/Formatter.hpp
+++ b/src/core/Formatter.hpp
@@ -10,7 +10,7 @@ message formatting - this does. See stack overflow 12261915
 class Formatter
 {
 public:
-    Formatter() {}
+    Formatter() { fStringStream.exceptions(std::ios::badbit); } // running out of memory must not cut the text short
     ~Formatter() {}
     template <typename Type>
     Formatter &operator<<(const Type &val_)
diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index 3839ebc..06988a8 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -111,6 +111,7 @@ FitResult::AsString() const
     struct tm *now = localtime(&t);
 
     std::stringstream ss;
+    ss.exceptions(std::ios::badbit); // running out of memory must not cut the text short
     ss << "-----------------------------------"
        << "-----------------------------------" << std::endl
        << "OXSX Fit Result: "
-- 
2.43.0


From 822749a2fe4755683fd4f721ac58b7d80336963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 08/89] fix: keep the open configuration when opening another
 one fails

The old parser was deleted and its pointer kept when the new file did not
parse; loading with no file open dereferenced NULL.
---
 src/config/ConfigLoader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/config/ConfigLoader.cpp b/src/config/ConfigLoader.cpp
index bf956f8..bd24741 100644
--- a/src/config/ConfigLoader.cpp
+++ b/src/config/ConfigLoader.cpp
@@ -20,8 +20,10 @@ void ConfigLoader::Open(const std::string &fileName_)
     {
         throw IOError("Can't find config file " + fileName_);
     }
+    // parse before letting go of the old one: this throws if the file is broken
+    INI::Parser *newParser = new INI::Parser(ss);
     delete fParser;
-    fParser = new INI::Parser(ss);
+    fParser = newParser;
 }
 
 void ConfigLoader::Close()
@@ -41,6 +43,8 @@ ConfigLoader::ListSections()
 
 void ConfigLoader::CheckExists(const std::string &section_, const std::string &field_)
 {
+    if (!fParser)
+        throw ConfigSectionMissing("Can't find section " + section_ + ", no config file is open");
 
     if (fParser->top().sections.find(section_) == fParser->top().sections.end())
         throw ConfigSectionMissing("Can't find section " + section_);
-- 
2.43.0


From 8426e48fa6f8c3b3d78c2a3ace8a0341a2439111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 09/89] fix: a read error must not pass for the end of the
 configuration file

---
 src/config/ini.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/config/ini.hpp b/src/config/ini.hpp
index 8d9cded..1025144 100644
--- a/src/config/ini.hpp
+++ b/src/config/ini.hpp
@@ -61,12 +61,13 @@ namespace INI
   {
   public:
     Parser(const char *fn);
-    Parser(std::istream &f) : f_(&f), ln_(0) { parse(top_); }
+    Parser(std::istream &f) : f_(&f), ln_(0) { parseAll(); }
     Level &top() { return top_; }
     void dump(std::ostream &s) { dump(s, top(), ""); }
 
   private:
     void dump(std::ostream &s, const Level &l, const std::string &sname);
+    void parseAll();
     void parse(Level &l);
     void parseSLine(std::string &sname, size_t &depth);
     void err(const char *s);
@@ -106,7 +107,15 @@ namespace INI
     if (!f0_)
       throw std::runtime_error(std::string("failed to open file: ") + fn);
 
+    parseAll();
+  }
+
+  inline void
+  Parser::parseAll()
+  {
     parse(top_);
+    if (f_->bad()) // otherwise what was read so far would pass for the whole file
+      err("read error");
   }
 
   inline void
-- 
2.43.0


From 54114306dc2f7f1df5b7d29d2b249b404b2d5d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 10/89] fix: copies of a data set own the names of their
 events, adding leaves the operands alone

The events of a copied, assigned or returned data set kept pointing at the
names of the original; a + b appended to a, and a + a never ended.
---
 src/data/OXSXDataSet.cpp | 31 ++++++++++++++++++++++++++++---
 src/data/OXSXDataSet.h   |  6 +++++-
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index 7b93c19..591ac46 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -2,6 +2,30 @@
 #include <Event.h>
 #include <Exceptions.h>
 #include <iostream>
+
+OXSXDataSet::OXSXDataSet(const OXSXDataSet &other_) : DataSet(other_), fData(other_.fData),
+                                                      fObservableNames(other_.fObservableNames),
+                                                      fNObservables(other_.fNObservables)
+{
+    LinkEvents();
+}
+
+OXSXDataSet &
+OXSXDataSet::operator=(const OXSXDataSet &other_)
+{
+    fData = other_.fData;
+    LinkEvents();
+    fObservableNames = other_.fObservableNames;
+    fNObservables = other_.fNObservables;
+    return *this;
+}
+
+void OXSXDataSet::LinkEvents()
+{
+    for (size_t i = 0; i < fData.size(); i++)
+        fData[i].SetObservableNames(&fObservableNames);
+}
+
 void OXSXDataSet::AddEntry(const Event &evData_)
 {
     // fNObservables is zero at initialisation, after the first time it is set it shouldnt change
@@ -50,12 +74,13 @@ OXSXDataSet::GetObservableNames() const
 }
 
 OXSXDataSet
-OXSXDataSet::operator+(const OXSXDataSet &other_)
+OXSXDataSet::operator+(const OXSXDataSet &other_) const
 {
+    OXSXDataSet sum(*this);
     for (size_t i = 0; i < other_.GetNEntries(); i++)
-        AddEntry(other_.GetEntry(i));
+        sum.AddEntry(other_.GetEntry(i));
 
-    return *this;
+    return sum;
 }
 
 void OXSXDataSet::Reserve(int i)
diff --git a/src/data/OXSXDataSet.h b/src/data/OXSXDataSet.h
index 54fff34..0155e90 100644
--- a/src/data/OXSXDataSet.h
+++ b/src/data/OXSXDataSet.h
@@ -15,6 +15,8 @@ class OXSXDataSet : public DataSet
 {
 public:
     OXSXDataSet() : fNObservables(0) {}
+    OXSXDataSet(const OXSXDataSet &);            // the events of a copy refer to
+    OXSXDataSet &operator=(const OXSXDataSet &); // the names of that copy
 
     void AddEntry(const Event &);
     Event GetEntry(size_t eventIndex_) const;
@@ -25,11 +27,13 @@ public:
     std::vector<std::string> GetObservableNames() const;
 
     // concatenate
-    OXSXDataSet operator+(const OXSXDataSet &other_);
+    OXSXDataSet operator+(const OXSXDataSet &other_) const;
 
     void Reserve(int);
 
 private:
+    void LinkEvents();
+
     std::vector<Event> fData;
     std::vector<std::string> fObservableNames;
     unsigned fNObservables;
-- 
2.43.0


From ed2a8ec5ca94264e38d131df0ef58667eebeb774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 11/89] fix: Event checks the index it sets and survives a
 look-up without names

---
 src/data/Event.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index 7890b18..0b092cf 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -43,7 +43,7 @@ void Event::SetDatum(size_t index_, double val_)
 {
     try
     {
-        fObservations[index_] = val_;
+        fObservations.at(index_) = val_;
     }
 
     catch (const std::out_of_range &e_)
@@ -56,11 +56,12 @@ void Event::SetDatum(const std::string &name_, double val_)
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    SetDatum(it - fObsNames->begin(), val_);
+    SetDatum(it - names.begin(), val_);
 }
 
 double
@@ -68,11 +69,12 @@ Event::GetDatum(const std::string &name_) const
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    return GetDatum(it - fObsNames->begin());
+    return GetDatum(it - names.begin());
 }
 
 std::vector<double>
-- 
2.43.0


From d40ae116ba210dfbf6fb90efa05842472384bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 12/89] fix: copied paged data sets are evicted too, events
 outlive the page they came from

Copies were not registered, so they stayed in memory; assigning leaked the
loaded data; an event referred to names that were freed when another file was
loaded.
---
 src/data/LazyOXSXDataSet.cpp | 17 +++++++++++------
 src/data/LazyOXSXDataSet.h   |  3 ++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index 7e976fb..f9687fe 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -8,17 +8,18 @@ LazyOXSXDataSet::~LazyOXSXDataSet()
   Deregister();
 }
 
-LazyOXSXDataSet::LazyOXSXDataSet(const LazyOXSXDataSet &other_)
+LazyOXSXDataSet::LazyOXSXDataSet(const LazyOXSXDataSet &other_) : DataSet(other_), fFileName(other_.fFileName), fDataSet(NULL)
 {
-  fFileName = other_.fFileName;
-  fDataSet = NULL;
+  Register();
 }
 
-LazyOXSXDataSet
+LazyOXSXDataSet &
 LazyOXSXDataSet::operator=(const LazyOXSXDataSet &other_)
 {
+  if (this == &other_)
+    return *this;
+  Close();
   fFileName = other_.fFileName;
-  fDataSet = NULL;
   return *this;
 }
 
@@ -51,6 +52,7 @@ void LazyOXSXDataSet::Load() const
   for (size_t i = 0; i < fFiles.size(); i++)
     fFiles[i]->Close();
   fDataSet = IO::LoadDataSet(fFileName);
+  fObservableNames = fDataSet->GetObservableNames();
 }
 
 void LazyOXSXDataSet::Close() const
@@ -73,6 +75,9 @@ Event LazyOXSXDataSet::GetEntry(size_t i_) const
 {
   if (!fDataSet)
     Load();
-  return fDataSet->GetEntry(i_);
+  // the event may be used after the data was closed again, so it can't refer to the names in there
+  Event event = fDataSet->GetEntry(i_);
+  event.SetObservableNames(&fObservableNames);
+  return event;
 }
 std::vector<LazyOXSXDataSet *> LazyOXSXDataSet::fFiles;
diff --git a/src/data/LazyOXSXDataSet.h b/src/data/LazyOXSXDataSet.h
index 7918928..b330a44 100644
--- a/src/data/LazyOXSXDataSet.h
+++ b/src/data/LazyOXSXDataSet.h
@@ -16,7 +16,7 @@ public:
     LazyOXSXDataSet(const std::string &filename_) : fFileName(filename_), fDataSet(NULL) { Register(); }
     ~LazyOXSXDataSet(); // frees fData
     LazyOXSXDataSet(const LazyOXSXDataSet &);
-    LazyOXSXDataSet operator=(const LazyOXSXDataSet &);
+    LazyOXSXDataSet &operator=(const LazyOXSXDataSet &);
 
     // Memory management
     void Load() const;
@@ -35,5 +35,6 @@ private:
     static std::vector<LazyOXSXDataSet *> fFiles;
     std::string fFileName;
     mutable OXSXDataSet *fDataSet;
+    mutable std::vector<std::string> fObservableNames;
 };
 #endif
-- 
2.43.0


From 62dae3bf470833548ebc60280096ce7516a2d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 13/89] fix: an event that could not be stored doesn't fix the
 number of observables

---
 src/data/OXSXDataSet.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index 591ac46..0f808a2 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -29,10 +29,7 @@ void OXSXDataSet::LinkEvents()
 void OXSXDataSet::AddEntry(const Event &evData_)
 {
     // fNObservables is zero at initialisation, after the first time it is set it shouldnt change
-    if (!fNObservables)
-        fNObservables = evData_.GetNObservables();
-
-    else if (fNObservables != evData_.GetNObservables())
+    if (fNObservables && fNObservables != evData_.GetNObservables())
         throw DimensionError("OXSXDataSet::AddEntry", fNObservables,
                              evData_.GetNObservables(),
                              " observables in event");
@@ -41,6 +38,7 @@ void OXSXDataSet::AddEntry(const Event &evData_)
         throw DimensionError("OXSXDataSet::Tried to add empty event to data set!");
 
     fData.push_back(evData_);
+    fNObservables = evData_.GetNObservables();
     fData.back().SetObservableNames(&fObservableNames);
 }
 
-- 
2.43.0


From 7ab245d70ef28e93ec2648ad30151644f92f9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 14/89] fix: a cut collection survives being assigned to itself

---
 src/cut/CutCollection.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/cut/CutCollection.cpp b/src/cut/CutCollection.cpp
index 2853c10..01a3748 100644
--- a/src/cut/CutCollection.cpp
+++ b/src/cut/CutCollection.cpp
@@ -48,13 +48,8 @@ CutCollection::CutCollection(const CutCollection &other_)
 CutCollection &
 CutCollection::operator=(const CutCollection &other_)
 {
-  for (size_t i = 0; i < fCuts.size(); i++)
-    delete fCuts.at(i);
-
-  fCuts.resize(0);
-  fCuts.reserve(other_.fCuts.size());
-  for (size_t i = 0; i < other_.fCuts.size(); i++)
-    fCuts.push_back(other_.fCuts.at(i)->Clone());
+  CutCollection copy(other_);
+  fCuts.swap(copy.fCuts);
   return *this;
 }
 
-- 
2.43.0


From d2b716da97f4e4f7aadb1a07a49d820730bad26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 15/89] fix: counting the backgrounds again replaces the
 previous counts

---
 src/count/CountingExperiment.cpp | 7 ++++++-
 src/count/CountingResult.cpp     | 8 ++++++++
 src/count/CountingResult.h       | 1 +
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index c4a39f2..a7a8c65 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -21,6 +21,10 @@ void CountingExperiment::CountData(DataSet *testData_)
 
 void CountingExperiment::CountBackgrounds()
 {
+    // start afresh, so that counting again doesn't add the same backgrounds twice
+    CountingResult result(fResult);
+    result.ClearBackgrounds();
+
     // loop over all the background types
     for (size_t i = 0; i < fBackgroundDataSets.size(); i++)
     {
@@ -39,8 +43,9 @@ void CountingExperiment::CountBackgrounds()
         double counts = (eventsPassed * fBackgroundNorms.at(i) / dataSet->GetNEntries());
         // MC statistics introduces a systematic error
         double error = sqrt(eventsPassed) * fBackgroundNorms.at(i) / dataSet->GetNEntries();
-        fResult.AddBackground(counts, fBackgroundNames.at(i), error, cutLog);
+        result.AddBackground(counts, fBackgroundNames.at(i), error, cutLog);
     }
+    fResult = result;
 }
 
 void CountingExperiment::CountSignal()
diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index d29ef79..a4846ab 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -21,6 +21,14 @@ void CountingResult::AddBackground(double expectedRate_, const std::string &name
     fBackgroundLogs.push_back(log_);
 }
 
+void CountingResult::ClearBackgrounds()
+{
+    fExpectedRates.clear();
+    fExpectedRateErrors.clear();
+    fBackgroundNames.clear();
+    fBackgroundLogs.clear();
+}
+
 void CountingResult::SetDataLog(const CutLog &log_)
 {
     fDataLog = log_;
diff --git a/src/count/CountingResult.h b/src/count/CountingResult.h
index ef0c40c..6c3da32 100644
--- a/src/count/CountingResult.h
+++ b/src/count/CountingResult.h
@@ -10,6 +10,7 @@ public:
    CountingResult() : fObservedCounts(-1), fSignalEfficiency(-1) {}
    void AddBackground(double expectedRate_, const std::string &name_,
                       double error_, const CutLog &);
+   void ClearBackgrounds();
    void SetSignal(double sigEff_, const std::string &name_, const CutLog &);
 
    void SetDataLog(const CutLog &);
-- 
2.43.0


From 9b0491aceff3ed16bc4fab9d7e33c0c8d339b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 16/89] fix: random draws can pick the last of the remaining
 events

---
 src/data/DataSetGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 97a621f..230ebca 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -211,7 +211,7 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (max == static_cast<size_t>(-999))
       max = eventIndices.size() - 1;
     // draw
-    draw = Rand::Shoot(max);
+    draw = Rand::Shoot(max + 1); // any of 0..max
 
     cache = eventIndices[draw];
     eventIndices[draw] = eventIndices[max];
@@ -259,7 +259,7 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
       max = eventIndices.size() - 1;
 
     // draw
-    draw = Rand::Shoot(max);
+    draw = Rand::Shoot(max + 1); // any of 0..max
 
     // return
     if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-- 
2.43.0


From 8460146595dbe408a07fd18949cbc981453d8b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 17/89] fix: draws without replacement hand out every event
 exactly once

---
 src/data/DataSetGenerator.cpp | 161 ++++++++++++----------------------
 src/data/DataSetGenerator.h   |   3 +-
 2 files changed, 59 insertions(+), 105 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 230ebca..fcde597 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -8,6 +8,7 @@
 #include <math.h>
 #include <algorithm>
 #include <iostream>
+#include <memory>
 #include <numeric>
 
 void DataSetGenerator::SetCuts(const CutCollection &cuts_)
@@ -24,9 +25,9 @@ void DataSetGenerator::SetDataSets(const std::vector<DataSet *> sets_)
 {
   fDataSets = sets_;
   fEventIndicies.clear();
-  fMaxs.clear();
+  fPoolFilled.clear();
   fEventIndicies.resize(sets_.size());
-  fMaxs.resize(sets_.size(), -999);
+  fPoolFilled.resize(sets_.size(), false);
 }
 
 void DataSetGenerator::SetExpectedRates(const std::vector<double> &rates_)
@@ -173,7 +174,23 @@ void DataSetGenerator::Reset()
 {
   fEventIndicies.clear();
   fEventIndicies.resize(fDataSets.size());
-  fMaxs = std::vector<size_t>(fDataSets.size(), -999);
+  fPoolFilled.assign(fDataSets.size(), false);
+}
+
+// The events of one data set that haven't been drawn yet, the first one at the back
+std::vector<size_t> &
+DataSetGenerator::GetPool(size_t handleIndex_)
+{
+  std::vector<size_t> &pool = fEventIndicies.at(handleIndex_);
+  if (!fPoolFilled.at(handleIndex_))
+  {
+    size_t nEntries = fDataSets.at(handleIndex_)->GetNEntries();
+    pool.resize(nEntries);
+    for (size_t i = 0; i < nEntries; i++)
+      pool[i] = nEntries - 1 - i;
+    fPoolFilled.at(handleIndex_) = true;
+  }
+  return pool;
 }
 
 void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_,
@@ -182,25 +199,13 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
 
   // see http://stackoverflow.com/questions/196017/unique-non-repeating-random-numbers-in-o1#196065
   // credit to Robert Gamble http://stackoverflow.com/users/25222/robert-gamble
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
+  std::vector<size_t> &pool = GetPool(handleIndex_);
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
-  if (nEvents_ > origData->GetNEntries())
+  if (nEvents_ > pool.size())
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsNoReplacement() asked for "
-                                    << nEvents_ << " but only have " << origData->GetNEntries()
-                                    << "events!)");
-
-  size_t cache = -1; // for swapping
-  size_t draw = -1;  // the random draw
+                                    << nEvents_ << " but only have " << pool.size()
+                                    << " events left!");
 
   outData_.Reserve(outData_.GetNEntries() + nEvents_);
   for (size_t i = 0; i < nEvents_; i++)
@@ -208,21 +213,16 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-    // draw
-    draw = Rand::Shoot(max + 1); // any of 0..max
-
-    cache = eventIndices[draw];
-    eventIndices[draw] = eventIndices[max];
-    eventIndices[max] = cache;
+    // draw, swap to the back
+    std::swap(pool[Rand::Shoot(pool.size())], pool.back());
 
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[max])))
-      outData_.AddEntry(origData->GetEntry(eventIndices[max]));
+    Event event = origData->GetEntry(pool.back());
+    if (fCuts.PassesCuts(event))
+      outData_.AddEntry(event);
 
-    // deincrement
-    max--;
+    // and it's gone
+    pool.pop_back();
   }
 
   return;
@@ -232,38 +232,22 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
                                                   OXSXDataSet &outData_)
 {
 
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
+  const std::vector<size_t> &pool = GetPool(handleIndex_);
   DataSet *origData = fDataSets.at(handleIndex_);
-  if (!(origData->GetNEntries()))
+  if (!pool.size())
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
-  size_t draw = -1; // the random draw
-
   outData_.Reserve(outData_.GetNEntries() + nEvents_);
   for (size_t i = 0; i < nEvents_; i++)
   {
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
-    // draw
-    draw = Rand::Shoot(max + 1); // any of 0..max
-
-    // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      outData_.AddEntry(origData->GetEntry(eventIndices[draw]));
+    // draw and return
+    Event event = origData->GetEntry(pool[Rand::Shoot(pool.size())]);
+    if (fCuts.PassesCuts(event))
+      outData_.AddEntry(event);
   }
 
   return;
@@ -275,7 +259,7 @@ void DataSetGenerator::AddDataSet(DataSet *data_, double rate_, bool flag_)
   fDataSets.push_back(data_);
   fExpectedRates.push_back(rate_);
   fEventIndicies.push_back(std::vector<size_t>());
-  fMaxs.push_back(0);
+  fPoolFilled.push_back(false);
 }
 
 const std::vector<bool> &
@@ -294,37 +278,23 @@ void DataSetGenerator::ClearDataSets()
   fSequentialFlags.clear();
   fExpectedRates.clear();
   fEventIndicies.clear();
-  fMaxs.clear();
+  fPoolFilled.clear();
   fDataSets.clear();
 }
 
 void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_)
 {
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
+  std::vector<size_t> &pool = GetPool(handleIndex_);
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (nEvents_ > origData->GetNEntries())
-    throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
-                                    << "\n\t (asked for " << nEvents_
-                                    << " but only have " << max << " (left)");
-
   if (!(origData->GetNEntries()))
-    throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
+    throw NotFoundError(Formatter() << "DataSetGenerator::SequentialDrawsNoReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
-  size_t draw = -1; // the random draw
-  size_t cache = -1;
-  // data_.Reserve(data_.GetNEntries() + nEvents_);
+  if (nEvents_ > pool.size())
+    throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
+                                    << "\n\t (asked for " << nEvents_
+                                    << " but only have " << pool.size() << " left)");
 
   size_t oneTenth = nEvents_ / 10;
   for (size_t i = 0; i < nEvents_; i++)
@@ -332,23 +302,13 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     if (oneTenth && !(i % oneTenth))
       std::cout << i << "/" << nEvents_ << "   (  " << 10 * i / oneTenth << " %)" << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
-    // draw --> always take the first one
-    draw = 0;
-
-    // swap
-    cache = eventIndices[draw];
-    eventIndices[draw] = eventIndices[max];
-    eventIndices[max] = cache;
-
-    // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      data_.AddEntry(origData->GetEntry(eventIndices[draw]));
+    // always take the next one
+    Event event = origData->GetEntry(pool.back());
+    if (fCuts.PassesCuts(event))
+      data_.AddEntry(event);
 
-    // deincrement
-    max--;
+    // and it's gone
+    pool.pop_back();
   }
 
   return;
@@ -368,31 +328,24 @@ DataSetGenerator::GetSequentialFlags() const
 OXSXDataSet *
 DataSetGenerator::AllRemainingEvents(size_t iDS_, int *eventsTaken_)
 {
-  OXSXDataSet *ds = new OXSXDataSet();
+  std::unique_ptr<OXSXDataSet> ds(new OXSXDataSet());
   ds->SetObservableNames(fDataSets.at(iDS_)->GetObservableNames());
   *eventsTaken_ = 0;
 
-  size_t nEvents = fMaxs.at(iDS_);
-  if (nEvents == static_cast<size_t>(-999))
-    nEvents = (fDataSets.at(iDS_)->GetNEntries()) - 1;
-
-  if (nEvents == static_cast<size_t>(-1))
-    return ds; // in case all events drawn and not replaced
-
-  const std::vector<size_t> &eventIndices = fEventIndicies[iDS_];
-
+  const std::vector<size_t> &pool = GetPool(iDS_);
+  size_t nEvents = pool.size();
   size_t oneTenth = nEvents / 10;
 
-  for (size_t jEV = 0; jEV <= nEvents; jEV++)
+  for (size_t jEV = 0; jEV < nEvents; jEV++)
   {
     if (oneTenth && !(jEV % oneTenth))
       std::cout << jEV << "/" << nEvents << "\t"
                 << "(" << 10 * jEV / oneTenth
                 << "%)"
                 << std::endl;
-    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(eventIndices.at(jEV)));
+    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(pool[nEvents - 1 - jEV]));
   }
 
   *eventsTaken_ = nEvents;
-  return ds;
+  return ds.release();
 }
diff --git a/src/data/DataSetGenerator.h b/src/data/DataSetGenerator.h
index edea345..ef2bca3 100644
--- a/src/data/DataSetGenerator.h
+++ b/src/data/DataSetGenerator.h
@@ -46,7 +46,8 @@ private:
    std::vector<DataSet *> fDataSets;
    std::vector<double> fExpectedRates;
    std::vector<std::vector<size_t>> fEventIndicies;
-   std::vector<size_t> fMaxs;
+   std::vector<bool> fPoolFilled;
+   std::vector<size_t> &GetPool(size_t handleIndex_);
    void RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void SequentialDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void RandomDrawsWithReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
-- 
2.43.0


From 590c1aa668000b8ddd45dae048f1d1f369320f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 18/89] fix: the bin after the last one doesn't exist

---
 src/histogram/AxisCollection.cpp | 6 +++---
 src/histogram/Histogram.cpp      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/histogram/AxisCollection.cpp b/src/histogram/AxisCollection.cpp
index c390d1d..5e8fa08 100644
--- a/src/histogram/AxisCollection.cpp
+++ b/src/histogram/AxisCollection.cpp
@@ -160,7 +160,7 @@ bool AxisCollection::HasAxis(const std::string &name_)
 void AxisCollection::GetBinLowEdges(size_t bin_, std::vector<double> &output_) const
 {
 
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinLowEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
@@ -177,7 +177,7 @@ void AxisCollection::GetBinLowEdges(size_t bin_, std::vector<double> &output_) c
 void AxisCollection::GetBinHighEdges(size_t bin_, std::vector<double> &output_) const
 {
 
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinHighEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
@@ -193,7 +193,7 @@ void AxisCollection::GetBinHighEdges(size_t bin_, std::vector<double> &output_)
 
 void AxisCollection::GetBinCentres(size_t bin_, std::vector<double> &output_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinHighEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index db9cbb8..9a1265b 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -109,7 +109,7 @@ Histogram::FindBin(double value) const
 double
 Histogram::GetBinContent(size_t bin_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -118,7 +118,7 @@ Histogram::GetBinContent(size_t bin_) const
 
 void Histogram::AddBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -127,7 +127,7 @@ void Histogram::AddBinContent(size_t bin_, double content_)
 
 void Histogram::SetBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "Out of bounds bin access attempted on bin " << bin_ << " !");
     fBinContents[bin_] = content_;
 }
-- 
2.43.0


From c6876cfa2c6420a6e2e10cacafeebf43fddc2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 19/89] fix: slices with several free axes keep every bin in
 its place

---
 src/histogram/Histogram.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index 9a1265b..59b03ab 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -385,12 +385,13 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
     std::cout << "Number of combinations found: " << localIdx.size() << std::endl;
 
     // for every combination, obtain the global flat idx in original histogram
-    size_t bin = 0;
+    std::vector<size_t> sliceCoords(newAxisIndexes.size());
     for (size_t idx = 0; idx < localIdx.size(); idx++)
     {
         size_t oldGlobalBin = fAxes.FlattenIndices(localIdx.at(idx));
-        slice.AddBinContent(bin, fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
-        bin += 1;
+        for (size_t i = 0; i < newAxisIndexes.size(); i++)
+            sliceCoords[i] = localIdx.at(idx).at(newAxisIndexes[i]);
+        slice.AddBinContent(slice.FlattenIndices(sliceCoords), fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
     }
 
     return slice;
-- 
2.43.0


From cec7c4ba84ff21376e3b886a65318384740b6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 20/89] fix: refuse to slice at a bin that doesn't exist

---
 src/histogram/Histogram.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index 59b03ab..594dd49 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -321,6 +321,11 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
                                 << "Histogram::GetSlice::Tried "
                                 << "to get slice of non existent axis "
                                 << it->first << "!");
+        if (it->second >= fAxes.GetAxis(it->first).GetNBins())
+            throw NotFoundError(Formatter()
+                                << "Histogram::GetSlice::Tried "
+                                << "to get slice at non existent bin "
+                                << it->second << " of axis " << it->first << "!");
     }
 
     // want to support multidimensional slices
-- 
2.43.0


From 8c7ff455390959b50e9dacf8726501b69395fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 21/89] fix: refuse indices outside an axis instead of
 addressing an unrelated bin

---
 src/histogram/AxisCollection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/histogram/AxisCollection.cpp b/src/histogram/AxisCollection.cpp
index 5e8fa08..6126f2d 100644
--- a/src/histogram/AxisCollection.cpp
+++ b/src/histogram/AxisCollection.cpp
@@ -94,6 +94,11 @@ AxisCollection::FlattenIndices(const std::vector<size_t> &indices_) const
         throw DimensionError("AxisCollection::FlattenIndices",
                              fNDimensions, indices_.size());
 
+    for (size_t i = 0; i < fNDimensions; i++)
+        if (indices_[i] >= fAxisNbins[i])
+            throw NotFoundError(Formatter() << "AxisCollection::FlattenIndices: axis " << fAxisNames[i]
+                                            << " has no bin " << indices_[i] << "!");
+
     if (fNDimensions == 1)
         return indices_.at(0);
 
-- 
2.43.0


From 8761ccf01c80ebc1b831b7edd52d78cc1d16180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 22/89] fix: setting one bin of a spectral fit distribution
 changes the bin, not its name

---
 src/dist/SpectralFitDist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index 91c5454..eb4c9dc 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -28,7 +28,7 @@ void SpectralFitDist::SetParameter(const std::string &name_, double value)
     if (it == fBinNames.end())
         throw ParameterError("Can't set " + name_ + ", parameters are called " + ToString(fBinNames));
 
-    *it = value;
+    fHistogram.SetBinContent(it - fBinNames.begin(), value);
 }
 
 double
-- 
2.43.0


From 43b694806af28dda218910125b9e2916f0177132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 23/89] fix: parameters of a VaryingCDF reach the functions
 that have them

---
 src/function/VaryingCDF.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 8e3fa45..9d4e102 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -115,10 +115,18 @@ VaryingCDF::Sample(const std::vector<double> &x2_) const
 
 void VaryingCDF::SetParameter(const std::string &name_, double value_)
 {
+    // only some of the functions need to know the parameter
+    bool found = false;
     for (std::map<std::string, Function *>::iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
-        function->second->SetParameter(name_, value_);
+        if (function->second->GetParameterNames().count(name_))
+        {
+            function->second->SetParameter(name_, value_);
+            found = true;
+        }
     }
+    if (!found)
+        throw ParameterError("VaryingCDF: can't set " + name_ + ", parameters are: " + ToString(GetParameterNames()));
 }
 
 double
@@ -127,13 +135,8 @@ VaryingCDF::GetParameter(const std::string &name_) const
     // This returns parameters of the parameter functions that have been defined.
     for (const auto &function : fFunctions)
     {
-        try
-        {
+        if (function.second->GetParameterNames().count(name_))
             return function.second->GetParameter(name_);
-        }
-        catch (const NotFoundError &e_)
-        {
-        }
     }
     // Parameter couldn't be found, so throw exception.
     std::vector<std::string> functionNames;
@@ -190,10 +193,17 @@ VaryingCDF::GetParameterNames() const
 
 void VaryingCDF::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
-        function->second->RenameParameter(old_, new_);
+        if (function->second->GetParameterNames().count(old_))
+        {
+            function->second->RenameParameter(old_, new_);
+            found = true;
+        }
     }
+    if (!found)
+        throw ParameterError("VaryingCDF: can't rename " + old_ + ", parameters are: " + ToString(GetParameterNames()));
 }
 
 std::string
-- 
2.43.0


From 4d1022958f307be736d76483819bacdb3f08e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 24/89] fix: Gaussian parameters beyond the first dimension can
 be read

---
 src/function/GaussianFitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 2b96f13..250ea35 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -101,9 +101,9 @@ GaussianFitter::GetParameter(const std::string &name_) const
         it = find(fStdDevsNames.begin(), fStdDevsNames.end(), name_);
         if (it == fStdDevsNames.end())
             throw NotFoundError(Formatter() << "GaussianFitter:: Parameter : " << name_ << " was not known to the GaussianFitter. Available names: " << ToString(GetParameterNames()));
-        return fOrignalFunc->GetStDev(std::distance(it, fStdDevsNames.begin()));
+        return fOrignalFunc->GetStDev(std::distance(fStdDevsNames.begin(), it));
     }
-    return fOrignalFunc->GetMean(std::distance(it, fMeansNames.begin()));
+    return fOrignalFunc->GetMean(std::distance(fMeansNames.begin(), it));
 }
 
 void GaussianFitter::SetParameters(const ParameterDict &ps_)
-- 
2.43.0


From 78d49bfec2ccca3c653fca85a3c4b43a59ce3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 25/89] fix: renaming a Gaussian parameter to its own name ends

---
 src/function/GaussianFitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 250ea35..f81f3ba 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -47,14 +47,14 @@ void GaussianFitter::RenameParameter(const std::string &old_, const std::string
     while (it != fMeansNames.end())
     {
         *it = new_;
-        it = find(it++, fMeansNames.end(), old_);
+        it = find(++it, fMeansNames.end(), old_);
     }
 
     it = find(fStdDevsNames.begin(), fStdDevsNames.end(), old_);
     while (it != fStdDevsNames.end())
     {
         *it = new_;
-        it = find(it++, fStdDevsNames.end(), old_);
+        it = find(++it, fStdDevsNames.end(), old_);
     }
 }
 
-- 
2.43.0


From 3c4eb66dcfb17ba88632a0fff071331d8de5b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 26/89] fix: Shape, ScaleFunction and Renorm only take their
 own parameters and miss absent ones

---
 src/systematic/Renorm.cpp        | 7 ++++---
 src/systematic/ScaleFunction.cpp | 7 ++++---
 src/systematic/Shape.cpp         | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index b48d08e..d5c0c3e 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -47,15 +47,16 @@ double Renorm::GetParameter(const std::string &name_) const
 
 void Renorm::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // the dictionary may hold the parameters of other components as well
+    for (auto &&pair : fParamDict)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("Renorm: cannot set parameter " + pair.first);
+            throw ParameterError("Renorm: set dictionary is missing " + pair.first);
         }
     }
 }
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index bb5b815..7edf024 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -98,15 +98,16 @@ ScaleFunction::GetParameter(const std::string &name_) const
 
 void ScaleFunction::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // the dictionary may hold the parameters of other components as well
+    for (auto &&pair : fParamDict)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("ScaleFunction: cannot set parameter " + pair.first);
+            throw ParameterError("ScaleFunction: set dictionary is missing " + pair.first);
         }
     }
 }
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index b210796..a996df9 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -83,15 +83,16 @@ double Shape::GetParameter(const std::string &name_) const
 
 void Shape::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // the dictionary may hold the parameters of other components as well
+    for (auto &&pair : fParamDict)
     {
         try
         {
-            fParamDict[pair.first] = pair.second;
+            pair.second = pd_.at(pair.first);
         }
         catch (const std::out_of_range &e_)
         {
-            throw ParameterError("Shift: cannot set parameter " + pair.first);
+            throw ParameterError("Shape: set dictionary is missing " + pair.first);
         }
     }
 }
-- 
2.43.0


From 801791b77e3791da18f77b4e8777ea806865f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 27/89] fix: renaming a systematic parameter to its own name
 keeps it

---
 src/systematic/Renorm.cpp        | 2 ++
 src/systematic/ScaleFunction.cpp | 2 ++
 src/systematic/Shape.cpp         | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index d5c0c3e..7aa1970 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -75,6 +75,8 @@ void Renorm::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Renorm: can't rename " + old_);
+    if (old_ == new_)
+        return;
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index 7edf024..e811d52 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -127,6 +127,8 @@ void ScaleFunction::RenameParameter(const std::string &old_, const std::string &
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("ScaleFunction: can't rename " + old_);
+    if (old_ == new_)
+        return;
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index a996df9..cd5e07e 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -111,6 +111,8 @@ void Shape::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Shift: can't rename " + old_);
+    if (old_ == new_)
+        return;
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
-- 
2.43.0


From cd790fc5e0b4de9d066cfe747d5547b4f9ff7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 28/89] fix: copies of a VaryingCDF own their functions and
 kernel

---
 src/function/VaryingCDF.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 9d4e102..691af66 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -16,7 +16,7 @@ using ContainerTools::ToString;
 // Constructory Things //
 /////////////////////////
 
-VaryingCDF::VaryingCDF(const std::string &name_ = "")
+VaryingCDF::VaryingCDF(const std::string &name_ = "") : fCdf(NULL)
 {
     if (name_ == "")
         fName = std::string("VaryingCDF");
@@ -32,19 +32,22 @@ VaryingCDF::~VaryingCDF()
     }
 }
 
-VaryingCDF::VaryingCDF(const VaryingCDF &copy_)
+VaryingCDF::VaryingCDF(const VaryingCDF &copy_) : fCdf(NULL), fName(copy_.fName)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
-    fName = copy_.fName;
+    // every copy owns its functions and its kernel
+    for (std::map<std::string, Function *>::const_iterator it = copy_.fFunctions.begin(); it != copy_.fFunctions.end(); ++it)
+        fFunctions[it->first] = it->second->Clone();
+    if (copy_.fCdf)
+        fCdf = copy_.fCdf->Clone();
 }
 
 VaryingCDF &
 VaryingCDF::operator=(const VaryingCDF &copy_)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
-    fName = copy_.fName;
+    VaryingCDF other(copy_);
+    fFunctions.swap(other.fFunctions);
+    std::swap(fCdf, other.fCdf);
+    std::swap(fName, other.fName);
     return *this;
 }
 
@@ -77,7 +80,10 @@ VaryingCDF::ConditionalProbability(const std::vector<double> &x_,
 
 void VaryingCDF::SetDependance(const std::string &paraName_, const Function *func_)
 {
-    fFunctions[paraName_] = func_->Clone();
+    Function *&function = fFunctions[paraName_];
+    Function *replacement = func_->Clone();
+    delete function;
+    function = replacement;
 }
 
 double
@@ -93,7 +99,9 @@ VaryingCDF::Integral(const std::vector<double> &mins_,
 
 void VaryingCDF::SetKernel(ConditionalPDF *PDF_)
 {
-    fCdf = PDF_->Clone();
+    ConditionalPDF *kernel = PDF_->Clone();
+    delete fCdf;
+    fCdf = kernel;
 }
 
 void VaryingCDF::SetKernel(PDF *PDF_)
@@ -101,7 +109,9 @@ void VaryingCDF::SetKernel(PDF *PDF_)
     // BL : If we are passed a PDF we transform to a JumpPDF in order to preserve
     // the structure of shifting a function to a bin center and integrating over
     // over bins relative to that shift.
-    fCdf = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
+    ConditionalPDF *kernel = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
+    delete fCdf;
+    fCdf = kernel;
 }
 
 std::vector<double>
-- 
2.43.0


From 44735d46a41b96a702e1100fbdfb3dc8610c0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 29/89] fix: assigning a JumpPDF frees the old function and
 copies nothing else

---
 src/function/JumpPDF.cpp | 11 ++++-------
 src/function/JumpPDF.h   |  2 +-
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 308d0f2..0b8e4f1 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -33,15 +33,12 @@ JumpPDF::JumpPDF(const JumpPDF &other_)
   fName = other_.fName;
 }
 
-JumpPDF
+JumpPDF &
 JumpPDF::operator=(const JumpPDF &other_)
 {
-  if (other_.fPDF)
-    fPDF = static_cast<PDF *>(other_.fPDF->Clone());
-  else
-    fPDF = NULL;
-
-  fName = other_.fName;
+  JumpPDF copy(other_);
+  std::swap(fPDF, copy.fPDF);
+  std::swap(fName, copy.fName);
   return *this;
 }
 
diff --git a/src/function/JumpPDF.h b/src/function/JumpPDF.h
index f62d966..bae9037 100644
--- a/src/function/JumpPDF.h
+++ b/src/function/JumpPDF.h
@@ -13,7 +13,7 @@ public:
   JumpPDF(const std::string &name_, PDF *);
   ~JumpPDF();
   JumpPDF(const JumpPDF &);
-  JumpPDF operator=(const JumpPDF &);
+  JumpPDF &operator=(const JumpPDF &);
   ConditionalPDF *Clone() const;
 
   // ConditDist Interface, just execute the function on x - x2
-- 
2.43.0


From 7ee80dc32946a2112d6932e885878dc2ef6def65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 30/89] fix: event convolutions free the distribution they
 replace and keep their name

---
 src/eventSystematic/EventConvolution.cpp | 32 +++++++++++-------------
 src/eventSystematic/EventConvolution.h   |  2 +-
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/eventSystematic/EventConvolution.cpp b/src/eventSystematic/EventConvolution.cpp
index c2d7aa1..d4fa258 100644
--- a/src/eventSystematic/EventConvolution.cpp
+++ b/src/eventSystematic/EventConvolution.cpp
@@ -23,18 +23,17 @@ EventConvolution::EventConvolution(const EventConvolution &other_)
     fDist = NULL;
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
+  fName = other_.fName;
 }
 
-EventConvolution
+EventConvolution &
 EventConvolution::operator=(const EventConvolution &other_)
 {
-  if (other_.fDist)
-    fDist = other_.fDist->Clone();
-  else
-    fDist = NULL;
-
-  fInObservables = other_.fInObservables;
-  fOutObservables = other_.fOutObservables;
+  EventConvolution copy(other_);
+  std::swap(fDist, copy.fDist);
+  std::swap(fInObservables, copy.fInObservables);
+  std::swap(fOutObservables, copy.fOutObservables);
+  std::swap(fName, copy.fName);
   return *this;
 }
 
@@ -44,24 +43,23 @@ EventConvolution::operator=(const EventConvolution &other_)
 
 void EventConvolution::SetPDF(PDF *f_)
 {
-  if (!f_)
-    fDist = NULL;
-
-  else
+  ConditionalPDF *dist = NULL;
+  if (f_)
   {
     if (f_->GetNDims() != 1)
       throw DimensionError("EventConvolution::SetFunction", 1,
                            f_->GetNDims(), "Only implemented for 1D functions");
-    fDist = static_cast<ConditionalPDF *>(new JumpPDF("kernel", f_));
+    dist = static_cast<ConditionalPDF *>(new JumpPDF("kernel", f_));
   }
+  delete fDist;
+  fDist = dist;
 }
 
 void EventConvolution::SetConditionalPDF(ConditionalPDF *c_)
 {
-  if (!c_)
-    fDist = NULL;
-  else
-    fDist = c_->Clone();
+  ConditionalPDF *dist = c_ ? c_->Clone() : NULL;
+  delete fDist;
+  fDist = dist;
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/src/eventSystematic/EventConvolution.h b/src/eventSystematic/EventConvolution.h
index 5e601b1..3a418aa 100644
--- a/src/eventSystematic/EventConvolution.h
+++ b/src/eventSystematic/EventConvolution.h
@@ -15,7 +15,7 @@ public:
   EventConvolution(const std::string &name_) : fDist(NULL), fName(name_) {}
   ~EventConvolution();
   EventConvolution(const EventConvolution &);
-  EventConvolution operator=(const EventConvolution &);
+  EventConvolution &operator=(const EventConvolution &);
 
   // Get/Set
   void SetPDF(PDF *f);
-- 
2.43.0


From 3f2398a137b3414d68e9f594978c496776c98e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 31/89] fix: assigned analytic distributions own their function

---
 src/dist/AnalyticED.cpp | 11 +++++++++++
 src/dist/AnalyticED.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/dist/AnalyticED.cpp b/src/dist/AnalyticED.cpp
index 7498c8e..c867c29 100644
--- a/src/dist/AnalyticED.cpp
+++ b/src/dist/AnalyticED.cpp
@@ -23,6 +23,17 @@ AnalyticED::AnalyticED(const AnalyticED &other_)
     fFunction = dynamic_cast<PDF *>(other_.fFunction->Clone());
 }
 
+AnalyticED &
+AnalyticED::operator=(const AnalyticED &other_)
+{
+    AnalyticED copy(other_);
+    std::swap(fFunction, copy.fFunction);
+    std::swap(fObservables, copy.fObservables);
+    std::swap(fNorm, copy.fNorm);
+    std::swap(fName, copy.fName);
+    return *this;
+}
+
 EventDistribution *
 AnalyticED::Clone() const
 {
diff --git a/src/dist/AnalyticED.h b/src/dist/AnalyticED.h
index 5c64865..4e798d6 100644
--- a/src/dist/AnalyticED.h
+++ b/src/dist/AnalyticED.h
@@ -11,6 +11,7 @@ class AnalyticED : public EventDistribution, public FitComponent
 public:
    AnalyticED(const std::string &, PDF *); // make a copy
    AnalyticED(const AnalyticED &other_);   // deep copy
+   AnalyticED &operator=(const AnalyticED &other_);
    ~AnalyticED();                          // frees fFunction
    EventDistribution *Clone() const;
 
-- 
2.43.0


From 486388d961b9feef83deeff33cdc20992e9f7fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 32/89] fix: copies of a composite distribution own their
 components

---
 src/dist/CompositeED.cpp | 19 +++++++++++++++++--
 src/dist/CompositeED.h   |  2 ++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/dist/CompositeED.cpp b/src/dist/CompositeED.cpp
index f9bfb8d..94225c2 100644
--- a/src/dist/CompositeED.cpp
+++ b/src/dist/CompositeED.cpp
@@ -23,6 +23,22 @@ CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_)
     }
     fName = name;
 }
+
+CompositeED::CompositeED(const CompositeED &other_) : EventDistribution(other_), fName(other_.fName)
+{
+    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
+        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
+}
+
+CompositeED &
+CompositeED::operator=(const CompositeED &other_)
+{
+    CompositeED copy(other_);
+    fDistPtrs.swap(copy.fDistPtrs);
+    std::swap(fName, copy.fName);
+    return *this;
+}
+
 CompositeED::~CompositeED()
 {
     for (size_t i = 0; i < fDistPtrs.size(); i++)
@@ -56,8 +72,7 @@ CompositeED::Integral() const
 EventDistribution *
 CompositeED::Clone() const
 {
-    EventDistribution *cp = new CompositeED(fDistPtrs);
-    return static_cast<EventDistribution *>(cp);
+    return static_cast<EventDistribution *>(new CompositeED(*this));
 }
 
 CompositeED
diff --git a/src/dist/CompositeED.h b/src/dist/CompositeED.h
index ce9da0e..99bb8a7 100644
--- a/src/dist/CompositeED.h
+++ b/src/dist/CompositeED.h
@@ -18,6 +18,8 @@ class CompositeED : public EventDistribution
 public:
    CompositeED(const EventDistribution *p1_, const EventDistribution *p2_);
    CompositeED(const std::vector<EventDistribution *> &pdfs_);
+   CompositeED(const CompositeED &other_);            // deep copy
+   CompositeED &operator=(const CompositeED &other_);
    virtual ~CompositeED();
 
    virtual double Probability(const Event &) const;
-- 
2.43.0


From 63368063b8f416643e9763393b12b6dd8dc5d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 33/89] fix: assigning a fit result copies the stat space and
 the precision

---
 src/optimise/FitResult.cpp | 30 +++++++++++++++++-------------
 src/optimise/FitResult.h   |  2 +-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index 06988a8..63b2cd5 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -26,29 +26,32 @@ FitResult::GetBestFit() const
 
 void FitResult::SetStatSpace(const Histogram &statSpace_)
 {
-    fStatSpace = new Histogram(statSpace_);
+    Histogram *statSpace = new Histogram(statSpace_);
+    delete fStatSpace;
+    fStatSpace = statSpace;
 }
 
 const Histogram &
 FitResult::GetStatSpace() const
 {
+    if (!fStatSpace)
+        throw NULLPointerAccessError("FitResult::GetStatSpace", "No stat space was set.");
     return *fStatSpace;
 }
 
-FitResult
+FitResult &
 FitResult::operator=(const FitResult &other_)
 {
-    if (!fStatSpace)
-        fStatSpace = NULL;
-    else
-        fStatSpace = new Histogram(*other_.fStatSpace);
-    fIsValid = other_.fIsValid;
-    fBestFit = other_.fBestFit;
-    fExtremeVal = other_.fExtremeVal;
-    fStatSample = other_.fStatSample;
-    f1DProjections = other_.f1DProjections;
-    f2DProjections = other_.f2DProjections;
-    fCovarianceMatrix = other_.fCovarianceMatrix;
+    FitResult copy(other_);
+    std::swap(fStatSpace, copy.fStatSpace);
+    std::swap(fIsValid, copy.fIsValid);
+    std::swap(fBestFit, copy.fBestFit);
+    std::swap(fExtremeVal, copy.fExtremeVal);
+    std::swap(fStatSample, copy.fStatSample);
+    std::swap(f1DProjections, copy.f1DProjections);
+    std::swap(f2DProjections, copy.f2DProjections);
+    std::swap(fCovarianceMatrix, copy.fCovarianceMatrix);
+    std::swap(printPrecision, copy.printPrecision);
     return *this;
 }
 
@@ -66,6 +69,7 @@ FitResult::FitResult(const FitResult &other_)
     f1DProjections = other_.f1DProjections;
     f2DProjections = other_.f2DProjections;
     fCovarianceMatrix = other_.fCovarianceMatrix;
+    printPrecision = other_.printPrecision;
 }
 
 const std::vector<std::vector<double>> &
diff --git a/src/optimise/FitResult.h b/src/optimise/FitResult.h
index 94a54fd..8cc11aa 100644
--- a/src/optimise/FitResult.h
+++ b/src/optimise/FitResult.h
@@ -18,7 +18,7 @@ class FitResult
 public:
    FitResult() : fStatSpace(NULL), fExtremeVal(0), printPrecision(5), fIsValid(true) {}
    FitResult(const FitResult &);           // deep copy
-   FitResult operator=(const FitResult &); // deep copy
+   FitResult &operator=(const FitResult &); // deep copy
    ~FitResult();                           // frees stat space
 
    const ParameterDict &GetBestFit() const;
-- 
2.43.0


From 4b0bcdcb91b0d9e7dcc28d649242f66d439ceba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 34/89] fix: a dependance that could not be copied leaves the
 VaryingCDF usable

---
 src/function/VaryingCDF.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 691af66..b4e0125 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -1,4 +1,5 @@
 #include <VaryingCDF.h>
+#include <memory>
 #include <Exceptions.h>
 #include <ContainerTools.hpp>
 #include <ContainerParameter.h>
@@ -80,10 +81,10 @@ VaryingCDF::ConditionalProbability(const std::vector<double> &x_,
 
 void VaryingCDF::SetDependance(const std::string &paraName_, const Function *func_)
 {
+    std::unique_ptr<Function> replacement(func_->Clone());
     Function *&function = fFunctions[paraName_];
-    Function *replacement = func_->Clone();
     delete function;
-    function = replacement;
+    function = replacement.release();
 }
 
 double
-- 
2.43.0


From e2e3332a202d373ac521bf7305413ea2121e0ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 35/89] fix: copies of a convolution own their kernel

---
 src/systematic/Convolution.cpp | 26 ++++++++++++++++++++++++--
 src/systematic/Convolution.h   |  2 ++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index b22318f..b1343ac 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -8,14 +8,36 @@
 void Convolution::SetFunction(PDF *function_)
 {
     // wrap this up if position independent kernel of the form P(x | x2) = P(x - x2)
+    ConditionalPDF *dist = static_cast<ConditionalPDF *>(new JumpPDF("kernel", function_));
     delete fDist;
-    fDist = static_cast<ConditionalPDF *>(new JumpPDF("kernel", function_));
+    fDist = dist;
 }
 
 void Convolution::SetConditionalPDF(ConditionalPDF *c_)
 {
+    ConditionalPDF *dist = c_->Clone();
     delete fDist;
-    fDist = c_->Clone();
+    fDist = dist;
+}
+
+Convolution::Convolution(const Convolution &other_)
+    : Systematic(other_), fDist(other_.fDist ? other_.fDist->Clone() : NULL), fName(other_.fName),
+      fCachedIndexPermutations(false)
+{
+}
+
+Convolution &
+Convolution::operator=(const Convolution &other_)
+{
+    if (this == &other_)
+        return *this;
+    ConditionalPDF *dist = other_.fDist ? other_.fDist->Clone() : NULL;
+    Systematic::operator=(other_);
+    delete fDist;
+    fDist = dist;
+    fName = other_.fName;
+    fCachedIndexPermutations = false;
+    return *this;
 }
 
 Convolution::~Convolution()
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 5cc7a2d..ea09492 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -18,6 +18,8 @@ class Convolution : public Systematic
 public:
    // Constructor/Destructor
    Convolution(const std::string &name_) : fDist(NULL), fName(name_), fCachedIndexPermutations(false) {}
+   Convolution(const Convolution &);            // deep copy
+   Convolution &operator=(const Convolution &);
    ~Convolution();
    // Two ways of setting the kernel for convolution:
    void SetFunction(PDF *function_);                  // Just give me a PDF object directly...
-- 
2.43.0


From 341814e6f4f1a9bb93308cd8d5e5ab59e0250320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 36/89] fix: systematics follow changes of their axes and
 observables

The bin mapping worked out by the first Construct was kept for ever, so a
systematic given new axes or observables used the old mapping.
---
 src/systematic/Convolution.h   | 1 +
 src/systematic/Scale.h         | 1 +
 src/systematic/ScaleFunction.h | 1 +
 src/systematic/Shape.h         | 1 +
 src/systematic/Shift.h         | 1 +
 src/systematic/Systematic.cpp  | 3 +++
 src/systematic/Systematic.h    | 3 +++
 7 files changed, 11 insertions(+)

diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index ea09492..d1eb942 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -53,6 +53,7 @@ private:
    AxisCollection DetermineAxisSubCollection(const std::vector<size_t> &rel_indices) const;
    size_t BlockedBinningIndex(size_t bin_index, const std::vector<size_t> &relativeIndices) const;
    void CacheIndexPermutations();
+   void ResetCache() { fCachedIndexPermutations = false; }
    void ConstructSubmatrix(std::vector<long long unsigned int> &column_indices, std::vector<long long unsigned int> &row_indices,
                            std::vector<double> &vals) const;
    void MakeFullMatrix(const std::vector<long long unsigned int> &column_indices, const std::vector<long long unsigned int> &row_indices,
diff --git a/src/systematic/Scale.h b/src/systematic/Scale.h
index eefca3e..498141c 100644
--- a/src/systematic/Scale.h
+++ b/src/systematic/Scale.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ResetCache() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/ScaleFunction.h b/src/systematic/ScaleFunction.h
index 52e9d70..a48cec0 100644
--- a/src/systematic/ScaleFunction.h
+++ b/src/systematic/ScaleFunction.h
@@ -51,6 +51,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ResetCache() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/Shape.h b/src/systematic/Shape.h
index 4f25d4c..af84854 100644
--- a/src/systematic/Shape.h
+++ b/src/systematic/Shape.h
@@ -53,6 +53,7 @@ private:
     bool fCachedBinMapping;
 
     void CacheBinMapping();
+    void ResetCache() { fCachedBinMapping = false; }
 };
 
 #endif
diff --git a/src/systematic/Shift.h b/src/systematic/Shift.h
index 7e4a0e3..71c34a6 100644
--- a/src/systematic/Shift.h
+++ b/src/systematic/Shift.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ResetCache() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &shiftAxis, double shiftedLow,
                              double shiftedHigh, size_t bin_test);
 };
diff --git a/src/systematic/Systematic.cpp b/src/systematic/Systematic.cpp
index c83a9df..cb53319 100644
--- a/src/systematic/Systematic.cpp
+++ b/src/systematic/Systematic.cpp
@@ -40,6 +40,7 @@ Systematic::GetResponse() const
 void Systematic::SetTransformationObs(const ObsSet &rep_)
 {
     fTransObs = rep_;
+    ResetCache();
 }
 
 ObsSet
@@ -51,6 +52,7 @@ Systematic::GetTransformationObs() const
 void Systematic::SetDistributionObs(const ObsSet &rep_)
 {
     fDistObs = rep_;
+    ResetCache();
 }
 
 ObsSet
@@ -95,4 +97,5 @@ void Systematic::SetAxes(const AxisCollection &axes_)
 {
     fAxes = axes_;
     SetResponse(SparseMatrix(axes_.GetNBins(), axes_.GetNBins()));
+    ResetCache();
 }
diff --git a/src/systematic/Systematic.h b/src/systematic/Systematic.h
index 6a5d323..ab0b11d 100644
--- a/src/systematic/Systematic.h
+++ b/src/systematic/Systematic.h
@@ -49,5 +49,8 @@ protected:
    // methods below used for index manipilation between pdf and response
    bool BinsCompatible(size_t bin1, size_t bin2) const;
    bool VectorContains(const std::vector<size_t> &, size_t) const;
+
+   // forget anything worked out from the axes and observables: called whenever they change
+   virtual void ResetCache() {}
 };
 #endif
-- 
2.43.0


From d95d69eaecd1d0cdd39f10df3e96826eab06a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 37/89] fix: SystematicManager answers for empty and unknown
 groups

The number of groups was uninitialised until a systematic was added, the number
of systematics in an unknown group read past the end of the map and the message
for a systematic in two groups indexed the wrong list.
---
 src/fitutil/SystematicManager.cpp | 4 ++--
 src/fitutil/SystematicManager.h   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 4b5fb6c..dd948d0 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -113,7 +113,7 @@ void SystematicManager::UniqueSystematics(const std::vector<std::string> &syss_)
             if (allname.find(group.at(j)->GetName()) == allname.end())
                 allname.insert(group.at(j)->GetName());
             else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(i)->GetName() << " is in more than one group.");
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(j)->GetName() << " is in more than one group.");
         }
     }
     // Check the "" group only after everything else has been checked and
@@ -191,7 +191,7 @@ SystematicManager::GetNSystematicsInGroup(const std::string &name_) const
 {
     try
     {
-        return fGroups.find(name_)->second.size();
+        return fGroups.at(name_).size();
     }
     catch (const std::out_of_range &e_)
     {
diff --git a/src/fitutil/SystematicManager.h b/src/fitutil/SystematicManager.h
index 5cf43af..0c54ed9 100644
--- a/src/fitutil/SystematicManager.h
+++ b/src/fitutil/SystematicManager.h
@@ -23,6 +23,7 @@ public:
    {
       std::vector<Systematic *> holder;
       fGroups[""] = holder;
+      fNGroups = fGroups.size();
    }
    ~SystematicManager() {}
 
-- 
2.43.0


From fee3b1d857d83807a56e8c6cae3772727722e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 38/89] fix: convolutions over several observables listed in
 another order

The kernel's axes follow the order of the transformation observables, the bin
indices followed the order of the distribution's.
---
 src/systematic/Convolution.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index b1343ac..52cbeb9 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -185,22 +185,19 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
      * convert to the bin number that would be used if we asserted that
      * we counted in the transformed axes first.
      */
-    if (relativeIndices.size() == fAxes.GetNDimensions())
-    {
-        return bin_index; // case where all axes are being transformed is trivial!
-    }
     // First - unpack indices for each axis
     const std::vector<size_t> bin_idxs = fAxes.UnpackIndices(bin_index);
     // Now split these indices into those within the transforing sub-collection, and those which aren't
     std::vector<size_t> bin_idxs_sub;
     std::vector<size_t> bin_idxs_notsub;
+    // NB the sub-collection's axes come in the order of the transformation observables
+    for (size_t i = 0; i < relativeIndices.size(); i++)
+    {
+        bin_idxs_sub.push_back(bin_idxs.at(relativeIndices.at(i)));
+    }
     for (size_t ax_idx = 0; ax_idx < fAxes.GetNDimensions(); ax_idx++)
     {
-        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) != std::end(relativeIndices))
-        {
-            bin_idxs_sub.push_back(bin_idxs.at(ax_idx));
-        }
-        else
+        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) == std::end(relativeIndices))
         {
             bin_idxs_notsub.push_back(bin_idxs.at(ax_idx));
         }
@@ -208,6 +205,10 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
     // Re-pack each individually, the combine to get bin index if going through transformed
     // sub-collection first
     const size_t idx_sub = fSubMapAxes.FlattenIndices(bin_idxs_sub);
+    if (bin_idxs_notsub.empty())
+    {
+        return idx_sub; // all axes are being transformed
+    }
     const size_t idx_notsub = fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
     const size_t idx_blocked = idx_sub + idx_notsub * fSubMapAxes.GetNBins();
 
-- 
2.43.0


From 41f084dc7b00bc22d8adff0c75347e17fd628bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 39/89] fix: a new Renorm has a scale factor

It was uninitialised until SetScaleFactor was called.
---
 src/systematic/Renorm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systematic/Renorm.h b/src/systematic/Renorm.h
index d44c918..d8c41bf 100644
--- a/src/systematic/Renorm.h
+++ b/src/systematic/Renorm.h
@@ -9,7 +9,7 @@
 class Renorm : public Systematic
 {
 public:
-Renorm(const std::string &name_) : fParamDict(), fName(name_){}
+Renorm(const std::string &name_) : fScaleFactor(1), fParamDict(), fName(name_){}
     void Construct();
 
     void SetScaleFactor(double);
-- 
2.43.0


From 7456b52ab4ebf55247fe12ef21de56dce9cd80f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 40/89] fix: a sparse matrix that ran out of memory can be set
 again

After a failed SetToIdentity or SetComponents the matrix was empty and stayed so.
---
 src/core/SparseMatrix.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index d4a8284..bb4e760 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -89,7 +89,7 @@ void SparseMatrix::SetToIdentity()
 {
     if (!fNRows || !fNCols || fNCols != fNRows)
         throw DimensionError(Formatter() << "SparseMatrix:: Can't set identity as matrix is not square. (rows,cols) : (" << fNRows << "," << fNCols << ")");
-    fArmaMat.eye();
+    fArmaMat.eye(fNRows, fNCols); // its own size is lost if an earlier operation ran out of memory
 }
 
 // FIXME: unsigned vs. size_t
@@ -104,8 +104,9 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
     locs.row(0) = arma::urowvec(rowIndices_);
     locs.row(1) = arma::urowvec(colIndices_);
 
-    fArmaMat = arma::sp_mat(locs, arma::vec(values_));
-    fArmaMat.resize(fNRows, fNCols); //Sets matrix back to its proper size incase it was shrunk
+    arma::sp_mat newMat(locs, arma::vec(values_));
+    newMat.resize(fNRows, fNCols); //Sets matrix back to its proper size incase it was shrunk
+    fArmaMat = std::move(newMat);
 }
 
 void SparseMatrix::Scale(double scale_)
-- 
2.43.0


From 170ca86674a265adfb8c98c6e984a90354ccb062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 41/89] fix: matrix products leave their operands alone and
 know their size

SparseMatrix::operator* overwrote its left hand operand, and the product of
rectangular matrices kept the number of columns of the left one.
---
 src/core/DenseMatrix.cpp  |  3 ++-
 src/core/SparseMatrix.cpp | 10 ++++++----
 src/core/SparseMatrix.h   |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/DenseMatrix.cpp b/src/core/DenseMatrix.cpp
index 83c7080..a292849 100644
--- a/src/core/DenseMatrix.cpp
+++ b/src/core/DenseMatrix.cpp
@@ -61,7 +61,8 @@ DenseMatrix::operator()(const std::vector<double> &input_) const
 DenseMatrix
 DenseMatrix::operator*=(const DenseMatrix &other_)
 {
-    fArmaMat = fArmaMat * other_.fArmaMat;
+    fArmaMat = arma::mat(fArmaMat * other_.fArmaMat);
+    fNCols = other_.fNCols;
     return *this;
 }
 
diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index bb4e760..1631b80 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -67,15 +67,17 @@ SparseMatrix::operator()(const std::vector<double> &input_) const
 SparseMatrix
 SparseMatrix::operator*=(const SparseMatrix &other_)
 {
-    fArmaMat = fArmaMat * other_.fArmaMat;
+    fArmaMat = arma::sp_mat(fArmaMat * other_.fArmaMat);
+    fNCols = other_.fNCols;
     return *this;
 }
 
 SparseMatrix
-SparseMatrix::operator*(const SparseMatrix &other_)
+SparseMatrix::operator*(const SparseMatrix &other_) const
 {
-    fArmaMat = fArmaMat * other_.fArmaMat;
-    return *this;
+    SparseMatrix product(*this);
+    product *= other_;
+    return product;
 }
 
 void SparseMatrix::SetZeros()
diff --git a/src/core/SparseMatrix.h b/src/core/SparseMatrix.h
index b95801e..8b684ca 100644
--- a/src/core/SparseMatrix.h
+++ b/src/core/SparseMatrix.h
@@ -26,7 +26,7 @@ public:
                       const std::vector<double> &values_);
 
    SparseMatrix operator*=(const SparseMatrix &other_);
-   SparseMatrix operator*(const SparseMatrix &other_);
+   SparseMatrix operator*(const SparseMatrix &other_) const;
    size_t GetNRows() const { return fNRows; }
    size_t GetNCols() const { return fNCols; }
    void SetZeros();
-- 
2.43.0


From d950b8ba4432cefffdc37b43f6b5551b843a4ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 42/89] fix: normalisations of direct and indirect pdfs fitted
 together

ReassertNorms only counted the pdfs of the kind it was updating, so with both
kinds present they were given each other's normalisations.
---
 src/fitutil/BinnedEDManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 6de255d..a2fd694 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -315,11 +315,11 @@ void BinnedEDManager::ReassertNorms(bool calcing_binprob)
         size_t j = 0;
         for (size_t i = 0; i < fNormalisations.size(); i++)
         {
+            if (fAllowNormsFittable.at(i) == FALSE)
+                continue; // has no fittable normalisation
             if (fAllowNormsFittable.at(i) == ((calcing_binprob) ? DIRECT : INDIRECT))
-            {
                 fNormalisations[i] = fFittableNorms.at(j);
-                j++;
-            }
+            j++;
         }
     }
 }
-- 
2.43.0


From 878e28ab9ab480e98f29c144950985eb16d16f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 43/89] fix: every evaluation starts from the original pdfs

Without systematics the working pdfs of the last evaluation were kept, and whether
they had been shrunk already was guessed from the number of bins, which only works
for one dimension: a second evaluation with buffers in several dimensions failed,
as did a first one with marginalised pdfs, and pdfs with another buffer were not
shrunk again. Normalisations after shrinking were only right the first time, those
of pdfs without fittable normalisation were missing when there was no systematic.
---
 src/fitutil/BinnedEDManager.cpp | 42 +++++++++++++++++++--------------
 src/fitutil/BinnedEDManager.h   |  4 +++-
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index a2fd694..fe363b3 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -90,18 +90,34 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
 {
-    // If there are no systematics dont do anything
-    //  ( working pdfs = original pdfs from initialisation)
+    // Always start from the original pdfs: the last evaluation may have left
+    // the working ones distorted, marginalised or shrunk
+    if (fWorkingPdfsChanged)
+    {
+        fWorkingPdfs = fOriginalPdfs;
+        fWorkingPdfsChanged = false;
+    }
+    fShrunk = false;
 
+    // If there are no systematics there is nothing to distort
     if (!sysMan_.GetNSystematics())
+    {
+        for (size_t i = 0; i < fWorkingPdfs.size(); i++)
+            if (fAllowNormsFittable.at(i) == FALSE)
+                fNormalisations[i] = fWorkingPdfs.at(i).Integral();
         return;
+    }
+    fWorkingPdfsChanged = true;
     if (fAllNormsDirFittable)
     {
         sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs);
     }
     else
     {
-        std::vector<double> norms(fNormalisations.size(), 0);
+        // pdfs that no systematic applies to keep their integrals
+        std::vector<double> norms;
+        for (size_t i = 0; i < fWorkingPdfs.size(); i++)
+            norms.push_back(fWorkingPdfs.at(i).Integral());
         sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs, &norms);
         for (size_t i = 0; i < norms.size(); i++)
         {
@@ -176,22 +192,10 @@ void BinnedEDManager::ApplyShrink(const BinnedEDShrinker &shrinker_)
     if (!shrinker_.GetBuffers().size())
         return;
 
-    // If the number of bins in the working PDFs =/= the number of bins in the corresponding original PDF, it's likely the
-    // shrinking has already been applied. This probably only happens if a buffer is being used without systematics. So
-    // we check if the bins equals the original number minus the shrinking, and if it has we assume the shrinking has already
-    // been applied successfully. If it doesn't equal that or the original number of bins, something bad has happened! For these
-    // tests we assume the buffer and number of bins are the same for all PDFs so just look at the 0th element
-    int bufferBins = 0;
-    std::map<std::string, std::pair<unsigned, unsigned>> bufferMap = shrinker_.GetBuffers();
-    for (std::map<std::string, std::pair<unsigned, unsigned>>::iterator it = bufferMap.begin(); it != bufferMap.end(); ++it)
-    {
-        bufferBins += it->second.first;
-        bufferBins += it->second.second;
-    }
-    if (fWorkingPdfs.at(0).GetNBins() == fOriginalPdfs.at(0).GetNBins() - bufferBins)
+    // Shrinking twice would lose more bins
+    if (fShrunk)
         return;
-    else if (fWorkingPdfs.at(0).GetNBins() != fOriginalPdfs.at(0).GetNBins() )
-        throw DimensionError(Formatter() << "BinnedEDManager:: #bins in Original PDF != #bins in Working PDF");
+    fWorkingPdfsChanged = true;
 
     for (size_t i = 0; i < fWorkingPdfs.size(); i++)
     {
@@ -221,6 +225,7 @@ void BinnedEDManager::ApplyShrink(const BinnedEDShrinker &shrinker_)
             }
         }
     }
+    fShrunk = true;
 }
 
 ////////////////////////////////
@@ -336,6 +341,7 @@ void BinnedEDManager::AssertDimensions(const std::vector<std::string> &observabl
     {
         if (working_pdf.GetObservables() != observables)
         {
+            fWorkingPdfsChanged = true;
             working_pdf = working_pdf.Marginalise(observables);
         }
     }
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 18ccce7..a4159f5 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -22,7 +22,7 @@ enum NormFittingStatus
 class BinnedEDManager : public FitComponent
 {
 public:
-   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fName("norms") {}
+   BinnedEDManager() : fWorkingPdfsChanged(false), fShrunk(false), fAllNormsDirFittable(true), fNPdfs(0), fName("norms") {}
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
@@ -62,6 +62,8 @@ private:
    ParameterManager fParameterManager;
    std::vector<BinnedED> fOriginalPdfs;
    std::vector<BinnedED> fWorkingPdfs;
+   bool fWorkingPdfsChanged; // do the working pdfs differ from the original ones?
+   bool fShrunk;             // has the shrinking been applied to the working pdfs?
    std::vector<double> fNormalisations;
    std::vector<NormFittingStatus> fAllowNormsFittable;
    std::vector<double> fFittableNorms;
-- 
2.43.0


From abbc16d998877b312e4a9219d88c4f43c025dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 44/89] fix: a copied BinnedEDManager keeps its fit parameters

The copy had none, so BinnedNLLH::SetPdfManager and copied likelihoods lost their
normalisations. Renamed normalisations keep their names when a pdf is added.
---
 src/fitutil/BinnedEDManager.cpp | 37 +++++++++++++++++++++++++++++++--
 src/fitutil/BinnedEDManager.h   |  5 +++++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index fe363b3..424f112 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -3,8 +3,39 @@
 #include <BinnedEDShrinker.h>
 #include <BinnedED.h>
 #include <Exceptions.h>
+#include <algorithm>
 #include <sstream>
 
+BinnedEDManager::BinnedEDManager(const BinnedEDManager &other_)
+    : FitComponent(other_), fOriginalPdfs(other_.fOriginalPdfs), fWorkingPdfs(other_.fWorkingPdfs),
+      fWorkingPdfsChanged(other_.fWorkingPdfsChanged), fShrunk(other_.fShrunk),
+      fNormalisations(other_.fNormalisations), fAllowNormsFittable(other_.fAllowNormsFittable),
+      fFittableNorms(other_.fFittableNorms), fNormNames(other_.fNormNames),
+      fAllNormsDirFittable(other_.fAllNormsDirFittable), fNPdfs(other_.fNPdfs), fNDims(other_.fNDims),
+      fName(other_.fName)
+{
+    RegisterParameters();
+}
+
+BinnedEDManager &
+BinnedEDManager::operator=(const BinnedEDManager &other_)
+{
+    fOriginalPdfs = other_.fOriginalPdfs;
+    fWorkingPdfs = other_.fWorkingPdfs;
+    fWorkingPdfsChanged = other_.fWorkingPdfsChanged;
+    fShrunk = other_.fShrunk;
+    fNormalisations = other_.fNormalisations;
+    fAllowNormsFittable = other_.fAllowNormsFittable;
+    fFittableNorms = other_.fFittableNorms;
+    fNormNames = other_.fNormNames;
+    fAllNormsDirFittable = other_.fAllNormsDirFittable;
+    fNPdfs = other_.fNPdfs;
+    fNDims = other_.fNDims;
+    fName = other_.fName;
+    RegisterParameters();
+    return *this;
+}
+
 unsigned
 BinnedEDManager::GetNPdfs() const
 {
@@ -141,6 +172,7 @@ BinnedEDManager::GetOriginalPdf(size_t index_) const
 
 void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_fitting_status)
 {
+    fNormNames.push_back(pdf_.GetName());
     fOriginalPdfs.push_back(pdf_);
     fWorkingPdfs.push_back(pdf_);
     fNPdfs++;
@@ -246,6 +278,7 @@ void BinnedEDManager::SetName(const std::string &n_)
 void BinnedEDManager::RenameParameter(const std::string &old_, const std::string &new_)
 {
     fParameterManager.RenameParameter(old_, new_);
+    std::replace(fNormNames.begin(), fNormNames.end(), old_, new_);
 }
 
 void BinnedEDManager::SetParameter(const std::string &name_, double value_)
@@ -290,7 +323,7 @@ void BinnedEDManager::RegisterParameters()
     {
         for (size_t i = 0; i < fOriginalPdfs.size(); i++)
         {
-            parameterNames.push_back(fOriginalPdfs.at(i).GetName());
+            parameterNames.push_back(fNormNames.at(i));
         }
         fParameterManager.AddContainer(fNormalisations, parameterNames);
     }
@@ -300,7 +333,7 @@ void BinnedEDManager::RegisterParameters()
         {
             if (fAllowNormsFittable.at(i))
             {
-                parameterNames.push_back(fOriginalPdfs.at(i).GetName());
+                parameterNames.push_back(fNormNames.at(i));
             }
         }
         fParameterManager.AddContainer(fFittableNorms, parameterNames);
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index a4159f5..fb8da5a 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -24,6 +24,10 @@ class BinnedEDManager : public FitComponent
 public:
    BinnedEDManager() : fWorkingPdfsChanged(false), fShrunk(false), fAllNormsDirFittable(true), fNPdfs(0), fName("norms") {}
 
+   // copies fit their own normalisations
+   BinnedEDManager(const BinnedEDManager &);
+   BinnedEDManager &operator=(const BinnedEDManager &);
+
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
                 const std::vector<NormFittingStatus> *norm_fitting_statuses = nullptr);
@@ -67,6 +71,7 @@ private:
    std::vector<double> fNormalisations;
    std::vector<NormFittingStatus> fAllowNormsFittable;
    std::vector<double> fFittableNorms;
+   std::vector<std::string> fNormNames; // parameter names of the normalisations, one per pdf
    bool fAllNormsDirFittable;
    int fNPdfs;
    size_t fNDims;
-- 
2.43.0


From 1b56e2c23f5205acb94058508b5814bf3c777cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 45/89] fix: adding a pdf keeps the normalisations of the
 others

The normalisations of direct pdfs became zero when the first other one was added.
---
 src/fitutil/BinnedEDManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 424f112..3473142 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -184,6 +184,9 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
     }
     if (norm_fitting_status != DIRECT)
     {
+        // until now the fitted values were kept in fNormalisations
+        if (fAllNormsDirFittable)
+            std::copy(fNormalisations.begin(), fNormalisations.end() - 1, fFittableNorms.begin());
         fAllNormsDirFittable = false;
     }
     RegisterParameters();
-- 
2.43.0


From 4062f9fca1b50ee8889707b7702f1211d3b39e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 46/89] fix: the shrinker's bin map can be set again

A second SetBinMap appended to the first one.
---
 src/fitutil/BinnedEDShrinker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fitutil/BinnedEDShrinker.cpp b/src/fitutil/BinnedEDShrinker.cpp
index eb585d5..c0774bd 100644
--- a/src/fitutil/BinnedEDShrinker.cpp
+++ b/src/fitutil/BinnedEDShrinker.cpp
@@ -70,6 +70,11 @@ void BinnedEDShrinker::SetBinMap(const BinnedED &dist_)
 
   size_t nDims = dist_.GetNDims();
 
+  // forget any earlier map
+  fNewAxes = AxisCollection();
+  fBinVec.clear();
+  fUseContent.clear();
+
   // FIXME Add a check to see if the non zero entries of fBuffers are in the pdf and give warning
 
   // 1. Build new axes. ShrinkPdf method just makes a copy if buffer size is zero
-- 
2.43.0


From 2716f6de165db89d72a673dc2c386651603f47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 47/89] fix: new data and new buffers take effect after an
 evaluation

The data were shrunk once and for all by the first evaluation: data set or binned
later were compared unshrunk, and a buffer set later applied to the pdfs only.
---
 src/teststat/BinnedNLLH.cpp | 24 +++++++++++++++++-------
 src/teststat/BinnedNLLH.h   |  4 +++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 8e18591..e9aa97e 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -21,8 +21,8 @@ BinnedNLLH::Evaluate()
     fPdfManager.ReassertNorms();
     if (!fAlreadyShrunk)
     {
-        fPdfShrinker.SetBinMap(fDataDist);
-        fDataDist = fPdfShrinker.ShrinkDist(fDataDist);
+        fPdfShrinker.SetBinMap(fFullDataDist);
+        fDataDist = fPdfShrinker.ShrinkDist(fFullDataDist);
         fAlreadyShrunk = true;
     }
 
@@ -125,11 +125,11 @@ BinnedNLLH::Evaluate()
 
 void BinnedNLLH::BinData()
 {
-    fDataDist = BinnedED(fPdfManager.GetOriginalPdf(0)); // make a copy for same binning and data rep
-    fDataDist.Empty();
+    BinnedED dist(fPdfManager.GetOriginalPdf(0)); // make a copy for same binning and data rep
+    dist.Empty();
     CutLog log(GetCuts().GetCutNames());
-    DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
-    SetCalculatedDataDist(true);
+    DistFiller::FillDist(dist, *GetDataSet(), GetCuts(), log);
+    SetDataDist(dist);
     SetSignalCutLog(log);
 }
 
@@ -275,10 +275,18 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 
 void BinnedNLLH::SetDataDist(const BinnedED &binnedPdf_)
 {
-    fDataDist = binnedPdf_;
+    fFullDataDist = binnedPdf_;
+    UnshrinkData();
     SetCalculatedDataDist(true);
 }
 
+void BinnedNLLH::UnshrinkData()
+{
+    // the next evaluation shrinks the data again
+    fAlreadyShrunk = false;
+    fDataDist = fFullDataDist;
+}
+
 BinnedED
 BinnedNLLH::GetDataDist() const
 {
@@ -293,6 +301,7 @@ void BinnedNLLH::SetBarlowBeeston(const bool useBarlowBeeston_)
 void BinnedNLLH::SetBuffer(const std::string &dim_, unsigned lower_, unsigned upper_)
 {
     fPdfShrinker.SetBuffer(dim_, lower_, upper_);
+    UnshrinkData();
 }
 
 std::pair<unsigned, unsigned>
@@ -304,6 +313,7 @@ BinnedNLLH::GetBuffer(const std::string &dim_) const
 void BinnedNLLH::SetBufferAsOverflow(bool b_)
 {
     fPdfShrinker.SetUsingOverflows(b_);
+    UnshrinkData();
 }
 
 bool BinnedNLLH::GetBufferAsOverflow() const
diff --git a/src/teststat/BinnedNLLH.h b/src/teststat/BinnedNLLH.h
index c50f5b7..5998737 100644
--- a/src/teststat/BinnedNLLH.h
+++ b/src/teststat/BinnedNLLH.h
@@ -47,10 +47,12 @@ public:
    virtual double Evaluate();
 
 private:
+   void UnshrinkData();
    BinnedEDManager fPdfManager;
    BinnedEDShrinker fPdfShrinker;
 
-   BinnedED fDataDist;
+   BinnedED fDataDist;     // compared with the pdfs, shrunk if there is a buffer
+   BinnedED fFullDataDist; // as it was set or binned
    bool fCalculatedDataDist;
    bool fAlreadyShrunk;
 
-- 
2.43.0


From e5d776f16f26ffaabf5c062d5cb1ab6a3cdfd35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 48/89] fix: Barlow-Beeston likelihood of bins with few MC
 events

Where the MC uncertainty of a bin exceeds its content the wrong sign of the second
root, or the logarithm of an empty bin, made the result nan.
---
 src/teststat/BinnedNLLH.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index e9aa97e..6c781a5 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -84,13 +84,22 @@ BinnedNLLH::Evaluate()
                 throw OXSXException(Formatter() << "BinnedNLLH:: Negative determinant in beta calculation for Barlow-Beeston. Something has gone terribly wrong.");
             }
 
-            double sign = (b >= 0) ? 1. : -1.;
-            double q = -0.5 * (b + sign * sqrt(det));
+            double beta;
+            if (fDataDist.GetBinContent(i) == 0)
+            {
+                // the roots are 0 and -b
+                beta = (b < 0) ? -b : 0;
+            }
+            else
+            {
+                double sign = (b >= 0) ? 1. : -1.;
+                double q = -0.5 * (b + sign * sqrt(det));
 
-            double x1 = q;
-            double x2 = fDataDist.GetBinContent(i) * sigma2 / q;
+                double x1 = q;
+                double x2 = -fDataDist.GetBinContent(i) * sigma2 / q;
 
-            double beta = (x1 > x2) ? x1 : x2;
+                beta = (x1 > x2) ? x1 : x2;
+            }
 
             // and update mc bin content
             newProb = beta * prob;
@@ -105,7 +114,9 @@ BinnedNLLH::Evaluate()
         }
 
         // LogL = mu_i - data * log(update MC) + Beta Penalty + Norm Correction
-        nLogLH = nLogLH - fDataDist.GetBinContent(i) * log(newProb) + penalty + newProb;
+        if (fDataDist.GetBinContent(i) != 0) // an empty bin may have an updated MC content of zero
+            nLogLH -= fDataDist.GetBinContent(i) * log(newProb);
+        nLogLH += penalty + newProb;
     }
 
     if (GetDebugMode())
-- 
2.43.0


From f1adce72c6339ae38bcfa40bdbb20326515d2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 49/89] fix: Hamiltonian trajectories that start on a wall or
 drift onto it by round off stay inside

---
 src/optimise/LeapFrog.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/optimise/LeapFrog.cpp b/src/optimise/LeapFrog.cpp
index 6b06b19..e9949e0 100644
--- a/src/optimise/LeapFrog.cpp
+++ b/src/optimise/LeapFrog.cpp
@@ -17,22 +17,21 @@ void LeapFrog::FirstIntersectionTime(const ParameterDict &initPos_,
     for (ParameterDict::const_iterator it = initPos_.begin(); it != initPos_.end(); ++it)
     {
         double vel = momenta_.at(it->first) / masses_.at(it->first);
-        double mintime = IntersectionTime(minima_.at(it->first), initPos_.at(it->first), vel);
-        double maxtime = IntersectionTime(maxima_.at(it->first), initPos_.at(it->first), vel);
+        double min = minima_.at(it->first);
+        double max = maxima_.at(it->first);
 
-        // only pick up crosses in the right direction
-        // the other way shouldn't happen, but round off error can make it so
-        bool mincrossed = (mintime > 0 && mintime < epsilon_ && (it->second > minima_.at(it->first)));
-        bool maxcrossed = (maxtime > 0 && maxtime < epsilon_ && (it->second < maxima_.at(it->first)));
-
-        if (!mincrossed && !maxcrossed)
+        // no way to reflect between two walls that touch
+        if (vel == 0 || !(min < max))
             continue;
 
-        double time;
-        if (mincrossed)
-            time = mintime;
-        else if (maxcrossed)
-            time = maxtime;
+        // only the wall this dimension is heading for can be crossed. If it is already there, or round off
+        // error has taken it just beyond, it is reflected straight away
+        double time = IntersectionTime(vel < 0 ? min : max, it->second, vel);
+        if (time < 0)
+            time = 0;
+
+        if (!(time < epsilon_))
+            continue;
 
         if (crossTime_ == -1 || time < crossTime_)
         {
-- 
2.43.0


From 5a457099cdf1631bd48fa6224b65ff2aae38fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 50/89] fix: grid search covers the whole grid and reports the
 value of the statistic

---
 src/optimise/GridSearch.cpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index fe95327..ae0c1fd 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -2,6 +2,7 @@
 #include <TestStatistic.h>
 #include <iostream>
 #include <sstream>
+#include <cmath>
 #include <Histogram.h>
 #include <FitResult.h>
 #include <Exceptions.h>
@@ -69,6 +70,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
     // Prepare best fit
     ParameterDict bestFit;
     fMinVal = 0;
+    bool found = false;
 
     // Initialise LH space and count the number of grid steps
     unsigned maxSteps = 1;
@@ -97,7 +99,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
     if (oneTenth < 10)
         oneTenth = 1;
 
-    while (Increment(fStepSizes.begin(), fStepSizes.end()))
+    do
     {
         // calculate the new value
         // if bigger, grab this as new best fit
@@ -116,24 +118,28 @@ GridSearch::Optimise(TestStatistic *testStat_)
         if (fMaximising)
             currentVal *= -1;
 
-        if (currentVal < fMinVal || !fMinVal)
+        // anything is better than nothing, except a value that is not a number
+        if (currentVal < fMinVal || (!found && !std::isnan(currentVal)))
         {
             fMinVal = currentVal;
             bestFit = fParamVals;
+            found = true;
         }
-    }
+    } while (Increment(fStepSizes.begin(), fStepSizes.end()));
+
     fFitResult.SetBestFit(bestFit);
-    fFitResult.SetExtremeVal(fMinVal);
+    // the value of the statistic itself, whichever way it was optimised
+    fFitResult.SetExtremeVal(fMaximising ? -fMinVal : fMinVal);
     return fFitResult;
 }
 
 bool GridSearch::Increment(ParameterDict::iterator it_,
                            ParameterDict::iterator end_)
 {
-    const std::string paramToChange = it_->first;
-    // nothing doing
-    if (fMinima == fMaxima)
+    // gone through every parameter, or nothing doing
+    if (it_ == end_ || fMinima == fMaxima)
         return false;
+    const std::string paramToChange = it_->first;
     fParamVals[paramToChange] += fStepSizes.at(paramToChange);
 
     // wrap around past the maximum
@@ -141,15 +147,8 @@ bool GridSearch::Increment(ParameterDict::iterator it_,
     {
         fParamVals[paramToChange] = fMinima.at(paramToChange);
 
-        // if its the last index no rippling to do
-        if (it_ == end_--)
-            return false;
-
-        // ripple up to next index
-        if (Increment(++it_, end_)) // propagate the false down
-            return true;
-        else
-            return false;
+        // ripple up to next index, propagate the false down if this was the last
+        return Increment(++it_, end_);
     }
     return true;
 }
-- 
2.43.0


From fba3876c8473bf96b9922257b4e58a702a9d1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 51/89] fix: grid search refuses steps that never reach the end
 of the range

---
 src/optimise/GridSearch.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index ae0c1fd..2acc91e 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -67,6 +67,16 @@ GridSearch::Optimise(TestStatistic *testStat_)
                          << "StepSizes for :\n"
                          << ToString(GetKeys(fStepSizes)) << "\n");
 
+    for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end(); ++it)
+    {
+        if (fMaxima[it->first] < it->second || (fMaxima[it->first] > it->second && !(fStepSizes[it->first] > 0)))
+            throw LogicError(Formatter()
+                             << "Grid Search initialisation error "
+                             << "Can't step through the range of " << it->first
+                             << " : " << it->second << " - " << fMaxima[it->first]
+                             << " in steps of " << fStepSizes[it->first] << "\n");
+    }
+
     // Prepare best fit
     ParameterDict bestFit;
     fMinVal = 0;
-- 
2.43.0


From ee97a64df509d3e7ab8a1ef3ade7dcc8ab864ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 52/89] fix: the last step of a Markov chain can be the best
 fit

---
 src/optimise/MCMC.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 1552b09..f0000d0 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -227,12 +227,6 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
         proposedVal = -proposedVal;
     }
 
-    if (fCurrentVal > fMaxVal)
-    {
-        fMaxVal = fCurrentVal;
-        fBestFit = fCurrentStep;
-    }
-
     long double acceptanceParam = 0;
     if (fTestStatLogged)
         acceptanceParam = exp(proposedVal - fCurrentVal + fSampler.CorrectAccParam());
@@ -249,6 +243,13 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
     {
         fCurrentVal = proposedVal;
         fCurrentStep = proposedStep_;
+
+        // the best point visited so far?
+        if (fCurrentVal > fMaxVal)
+        {
+            fMaxVal = fCurrentVal;
+            fBestFit = fCurrentStep;
+        }
     }
 
     return accept;
-- 
2.43.0


From 8d0791a74699ef7106dc982d3976b9dd4eca95c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 53/89] fix: a second Markov chain does not continue the
 samples of the first

---
 src/optimise/MCMC.cpp        | 4 ++++
 src/optimise/MCMCSamples.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index f0000d0..9ad2bfc 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -152,6 +152,10 @@ MCMC::Optimise(TestStatistic *testStat_)
                          << ContainerTools::ToString(testStat_->GetParameterNames())
                          << "\n If initial trial is specified it should be one per fit parameter");
 
+    // every chain starts afresh
+    fSamples.Clear();
+    fCurrentStep.clear();
+
     // 1. Choose a random starting point or the user defined one
     std::set<std::string> parameterNames = testStat_->GetParameterNames();
     if (fInitialTrial.size())
diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 424b907..5c1ca63 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -110,7 +110,7 @@ void MCMCSamples::InitialiseHistograms()
         fChain->Branch("Step", &fStepNumber, "Step/I");
         fChain->Branch("StepTime", &fStepTime, "StepTime/D");
 
-        parvals.reserve(paramNames.size());
+        parvals.assign(paramNames.size(), 0);
         for (std::set<std::string>::iterator it = paramNames.begin();
              it != paramNames.end(); ++it)
         {
-- 
2.43.0


From 30d00e9fbbd17806a609be984ddb094d5d69ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 54/89] fix: a Markov chain does not claim to save its steps
 unasked

---
 src/optimise/MCMC.h        | 3 ++-
 src/optimise/MCMCSamples.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimise/MCMC.h b/src/optimise/MCMC.h
index 66139c9..6b0c2b7 100644
--- a/src/optimise/MCMC.h
+++ b/src/optimise/MCMC.h
@@ -17,7 +17,8 @@ public:
                          fCurrentVal(0.),
                          fSamples(this),
                          pTestStatistic(NULL),
-                         fSampler(s_)
+                         fSampler(s_),
+                         fSaveChain(false)
    {
    }
 
diff --git a/src/optimise/MCMCSamples.h b/src/optimise/MCMCSamples.h
index eab5a53..df9d5f6 100644
--- a/src/optimise/MCMCSamples.h
+++ b/src/optimise/MCMCSamples.h
@@ -14,6 +14,7 @@ public:
    MCMCSamples(MCMC *p_) : fSaveFullHistogram(false), fAcceptedSteps(0), fTotalSteps(0),
                            fBurnIn(1000), fThinFactor(1), fInitialised(false), fMCMC(p_),
                            fAutoCorrelator(1000),
+                           fChain(NULL),
                            fSaveChain(false)
    {
    }
-- 
2.43.0


From 9ea3b33a7e930cae650eb27e88d85f1369f53713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 55/89] fix: von Neumann sampling draws a sample

---
 src/rand/Rand.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rand/Rand.cpp b/src/rand/Rand.cpp
index 0656e90..071e88c 100644
--- a/src/rand/Rand.cpp
+++ b/src/rand/Rand.cpp
@@ -60,14 +60,14 @@ Rand::VonNeumannSample(Function *f_, double xMin_, double xMax_, double yMax_)
 
   // Von-neuman sampling
   double draw = 0;
-  double fOfX = 1;
+  double fOfX = 0;
   double val = 0;
 
-  while (val > fOfX)
+  do
   {
     draw = Uniform() * (xMax_ - xMin_) + xMin_;
     fOfX = f_->operator()(std::vector<double>(1, draw));
     val = Uniform() * yMax_;
-  }
+  } while (val > fOfX);
   return draw;
 }
-- 
2.43.0


From db5b13d51a02873f1606ca584d2f31d6d3e938f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 56/89] fix: upper limits are taken from the bin that reaches
 the confidence level

---
 src/interval/BayesIntervalCalc.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index a2b167d..6d7af83 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -12,9 +12,9 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     if (!posterior_.Integral())
         throw ValueError("BayesIntervalCalc::Empty histogram passed!");
 
-    if (cl_ <= 0)
+    if (!(cl_ > 0) || cl_ > 1)
         throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
-                                     << " , must be >0!");
+                                     << " , must be >0 and <= 1!");
 
     // only works for 1D histograms currently
     if (posterior_.GetNDims() != 1)
@@ -24,18 +24,19 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     posterior_.Normalise();
 
     // Integrate from the minimum to x until the total probability exceeds cl_
-    // find the first bin <b> for which the integral  <0>-><b> > cl
+    // find the first bin <b> for which the integral  <0>-><b> >= cl, the last filled bin if round off error
+    // keeps the whole integral below cl
     size_t critBin = 0;
+    double total = 0;
     double sum = 0;
-    while (sum < cl_)
+    for (size_t i = 0; i < posterior_.GetNBins() && sum < cl_; i++)
     {
-        sum = 0;
-        for (size_t i = 0; i < critBin; i++)
+        total += posterior_.GetBinContent(i);
+        if (posterior_.GetBinContent(i) > 0)
         {
-            sum += posterior_.GetBinContent(i);
+            critBin = i;
+            sum = total;
         }
-
-        critBin++;
     }
 
     // now interpolate between the bins
@@ -55,6 +56,10 @@ BayesIntervalCalc::OneSidedUpperInterval(double expectedCounts_, int observedCou
 double
 BayesIntervalCalc::UpperBound(double expectedCounts_, int observedCounts_, double cl_, double tolerance_)
 {
+    if (!(cl_ > 0) || !(cl_ < 1) || !(tolerance_ > 0))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_ << " must be >0 and <1, tolerance = "
+                                     << tolerance_ << " must be >0!");
+
     double currentCL = 0;
     double limit = 0;
     while (std::abs(currentCL - cl_) > tolerance_)
-- 
2.43.0


From f35ec1348ecb351e1fdd957baa1b5113b9b33fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 57/89] fix: one sided intervals keep their precision when few
 events are observed

---
 src/interval/BayesIntervalCalc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index 6d7af83..421a310 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -50,7 +50,8 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
 double
 BayesIntervalCalc::OneSidedUpperInterval(double expectedCounts_, int observedCounts_, double upperEdge_)
 {
-    return (gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_ + upperEdge_) - gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_)) / (1 - gsl_sf_gamma_inc_P(observedCounts_ + 1, expectedCounts_));
+    // the upper gamma function keeps its precision where far more is expected than observed, 1 - P doesn't
+    return 1 - gsl_sf_gamma_inc_Q(observedCounts_ + 1, expectedCounts_ + upperEdge_) / gsl_sf_gamma_inc_Q(observedCounts_ + 1, expectedCounts_);
 }
 
 double
-- 
2.43.0


From 6877ae424d38a7c97937853112386e9f609ac332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 58/89] fix: grid search steps over parameters whose range is a
 single value

---
 src/optimise/GridSearch.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index 2acc91e..2339318 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -88,6 +88,9 @@ GridSearch::Optimise(TestStatistic *testStat_)
 
     for (ParameterDict::iterator it = fMinima.begin(); it != fMinima.end(); ++it)
     {
+        gridCounts[it->first] = 1;
+        if (fMaxima[it->first] == it->second)
+            continue; // just the one value
         size_t axisCounts = 1 + static_cast<size_t>((fMaxima[it->first] - it->second) / fStepSizes[it->first]);
         maxSteps *= axisCounts;
         gridCounts[it->first] = axisCounts;
@@ -152,8 +155,8 @@ bool GridSearch::Increment(ParameterDict::iterator it_,
     const std::string paramToChange = it_->first;
     fParamVals[paramToChange] += fStepSizes.at(paramToChange);
 
-    // wrap around past the maximum
-    if (fParamVals[paramToChange] > fMaxima.at(paramToChange))
+    // wrap around past the maximum, straight away if there is only one value
+    if (fParamVals[paramToChange] > fMaxima.at(paramToChange) || fMinima.at(paramToChange) == fMaxima.at(paramToChange))
     {
         fParamVals[paramToChange] = fMinima.at(paramToChange);
 
-- 
2.43.0


From 4e28593cfe3a22b06c1f16c8c30d8957476e2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 59/89] fix: the upper contour edge set for Minuit is used in
 the fit

---
 src/optimise/Minuit.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index ec22c18..7e62cff 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -107,7 +107,9 @@ void Minuit::Initialise(TestStatistic *testStat_)
     fParameterNames = GetKeys(fInitialErrors);
 
     // pass this ordering on to the called function so it knows the right order too
-    fMinuitFCN = MinuitFCN(testStat_, fParameterNames);
+    MinuitFCN minuitFCN(testStat_, fParameterNames);
+    minuitFCN.SetUp(fMinuitFCN.GetUp());
+    fMinuitFCN = minuitFCN;
 
     // max or min?
     if (fMaximising)
-- 
2.43.0


From b88f6c38e9e87016a6e6eb14cc20f3e1da6893ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 60/89] fix: parameters without limits are not limited to zero
 by Minuit

---
 src/optimise/Minuit.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index 7e62cff..6b0db2e 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -118,14 +118,13 @@ void Minuit::Initialise(TestStatistic *testStat_)
     // Create parameters and set limits
     MnUserParameters params(GetValues(fInitialValues, fParameterNames), GetValues(fInitialErrors, fParameterNames));
 
-    if (fMinima.size() && fMaxima.size())
+    int i = 0;
+    for (std::set<std::string>::iterator it = fParameterNames.begin();
+         it != fParameterNames.end(); ++it, i++)
     {
-        int i = 0;
-        for (std::set<std::string>::iterator it = fParameterNames.begin();
-             it != fParameterNames.end(); ++it)
-        {
-            params.SetLimits(i++, fMinima[*it], fMaxima[*it]);
-        }
+        // not every parameter has to have limits
+        if (fMinima.count(*it))
+            params.SetLimits(i, fMinima[*it], fMaxima[*it]);
     }
 
     ROOT::Minuit2::MnStrategy strategy(fStrategy);
-- 
2.43.0


From c98773edc106db80151f548701017771d992cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 61/89] fix: copies of Minuit do not share the minimiser

---
 src/optimise/Minuit.cpp | 26 ++++++++++++++++++++++++++
 src/optimise/Minuit.h   |  2 ++
 2 files changed, 28 insertions(+)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index 6b0db2e..9c56784 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -21,6 +21,32 @@ using ROOT::Minuit2::MnUserParameters;
 
 // FIXME:: CHeck the length of the vectors as you set them match fNparams
 
+Minuit &
+Minuit::operator=(const Minuit &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    // the minimiser belongs to the other object and refers to its function, each fit makes a new one
+    delete fMinimiser;
+    fMinimiser = NULL;
+
+    fMinuitFCN = other_.fMinuitFCN;
+    fInitialValues = other_.fInitialValues;
+    fInitialErrors = other_.fInitialErrors;
+    fMinima = other_.fMinima;
+    fMaxima = other_.fMaxima;
+    fFixedParameters = other_.fFixedParameters;
+    fMaxCalls = other_.fMaxCalls;
+    fTolerance = other_.fTolerance;
+    fStrategy = other_.fStrategy;
+    fMethod = other_.fMethod;
+    fParameterNames = other_.fParameterNames;
+    fFitResult = other_.fFitResult;
+    fMaximising = other_.fMaximising;
+    return *this;
+}
+
 Minuit::~Minuit()
 {
     delete fMinimiser;
diff --git a/src/optimise/Minuit.h b/src/optimise/Minuit.h
index d406361..d78ca5f 100644
--- a/src/optimise/Minuit.h
+++ b/src/optimise/Minuit.h
@@ -25,6 +25,8 @@ public:
               fMethod("Migrad"),
               fMinimiser(NULL),
               fMaximising(false) {}
+   Minuit(const Minuit &other_) : fMinimiser(NULL) { *this = other_; }
+   Minuit &operator=(const Minuit &other_);
    ~Minuit();
 
    virtual const FitResult &Optimise(TestStatistic *);
-- 
2.43.0


From c163450c945af108ac599a494225da8f816e1644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 62/89] fix: adding a distribution to an EDManager keeps
 renamed normalisations

---
 src/fitutil/EDManager.cpp | 9 ++++-----
 src/fitutil/EDManager.h   | 1 +
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 79054c4..68d4a2e 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -2,6 +2,7 @@
 #include <EventDistribution.h>
 #include <Event.h>
 #include <Exceptions.h>
+#include <algorithm>
 
 EDManager::~EDManager()
 {
@@ -21,6 +22,7 @@ void EDManager::AddDist(EventDistribution *pdf_)
     fDists.push_back(pdf_->Clone());
     fNDists++;
     fNormalisations.resize(fNDists, 0);
+    fNormNames.push_back(pdf_->GetName());
     RegisterParameters();
 }
 
@@ -72,11 +74,7 @@ EDManager::GetNDists() const
 void EDManager::RegisterParameters()
 {
     fParameterManager.Clear();
-    std::vector<std::string> parameterNames;
-    for (size_t i = 0; i < fDists.size(); i++)
-        parameterNames.push_back(fDists.at(i)->GetName());
-
-    fParameterManager.AddContainer(fNormalisations, parameterNames);
+    fParameterManager.AddContainer(fNormalisations, fNormNames);
 }
 
 std::string
@@ -93,6 +91,7 @@ void EDManager::SetName(const std::string &n_)
 void EDManager::RenameParameter(const std::string &old_, const std::string &new_)
 {
     fParameterManager.RenameParameter(old_, new_);
+    std::replace(fNormNames.begin(), fNormNames.end(), old_, new_);
 }
 
 void EDManager::SetParameter(const std::string &name_, double value_)
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index 53d468e..29cd7fd 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -44,6 +44,7 @@ private:
    size_t fNDims;
    std::vector<EventDistribution *> fDists;
    std::vector<double> fNormalisations;
+   std::vector<std::string> fNormNames; // parameter names of the normalisations, one per distribution
 
    std::string fName; // component name
    void RegisterParameters();
-- 
2.43.0


From 3e31530607c295c211380c6f6a2dbcd70a67b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 63/89] fix: copies of an EDManager own their distributions

---
 src/fitutil/EDManager.cpp | 27 +++++++++++++++++++++++++++
 src/fitutil/EDManager.h   |  4 ++++
 2 files changed, 31 insertions(+)

diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 68d4a2e..d3b18bf 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -10,6 +10,33 @@ EDManager::~EDManager()
         delete fDists[i];
 }
 
+EDManager::EDManager(const EDManager &other_) : EDManager()
+{
+    *this = other_;
+}
+
+EDManager &
+EDManager::operator=(const EDManager &other_)
+{
+    // copy everything before letting go of anything
+    EDManager copy;
+    copy.fDists.reserve(other_.fDists.size());
+    for (size_t i = 0; i < other_.fDists.size(); i++)
+        copy.fDists.push_back(other_.fDists[i]->Clone());
+    copy.fNormalisations = other_.fNormalisations;
+    copy.fNormNames = other_.fNormNames;
+    copy.fName = other_.fName;
+
+    fNDists = other_.fNDists;
+    fNDims = other_.fNDims;
+    fDists.swap(copy.fDists);
+    fNormalisations.swap(copy.fNormalisations);
+    fNormNames.swap(copy.fNormNames);
+    fName.swap(copy.fName);
+    RegisterParameters();
+    return *this;
+}
+
 void EDManager::AddDist(EventDistribution *pdf_)
 {
     if (!fDists.size())
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index 29cd7fd..3d85d7e 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -13,6 +13,10 @@ public:
    EDManager() : fNDists(0), fNDims(0), fName("norms") {}
    ~EDManager(); // free pdf copies
 
+   // copies own their distributions and fit their own normalisations
+   EDManager(const EDManager &);
+   EDManager &operator=(const EDManager &);
+
    void AddDist(EventDistribution *); // take a copy
    void AddDists(const std::vector<EventDistribution *> &pdfs_);
 
-- 
2.43.0


From 0b64913acee42393ed63069738afc87383797c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 64/89] fix: BinnedEDManager knows the number of dimensions of
 its pdfs

---
 src/fitutil/BinnedEDManager.cpp | 5 ++---
 src/fitutil/BinnedEDManager.h   | 1 -
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 3473142..ba703ab 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -11,7 +11,7 @@ BinnedEDManager::BinnedEDManager(const BinnedEDManager &other_)
       fWorkingPdfsChanged(other_.fWorkingPdfsChanged), fShrunk(other_.fShrunk),
       fNormalisations(other_.fNormalisations), fAllowNormsFittable(other_.fAllowNormsFittable),
       fFittableNorms(other_.fFittableNorms), fNormNames(other_.fNormNames),
-      fAllNormsDirFittable(other_.fAllNormsDirFittable), fNPdfs(other_.fNPdfs), fNDims(other_.fNDims),
+      fAllNormsDirFittable(other_.fAllNormsDirFittable), fNPdfs(other_.fNPdfs),
       fName(other_.fName)
 {
     RegisterParameters();
@@ -30,7 +30,6 @@ BinnedEDManager::operator=(const BinnedEDManager &other_)
     fNormNames = other_.fNormNames;
     fAllNormsDirFittable = other_.fAllNormsDirFittable;
     fNPdfs = other_.fNPdfs;
-    fNDims = other_.fNDims;
     fName = other_.fName;
     RegisterParameters();
     return *this;
@@ -45,7 +44,7 @@ BinnedEDManager::GetNPdfs() const
 size_t
 BinnedEDManager::GetNDims() const
 {
-    return fNDims;
+    return fOriginalPdfs.empty() ? 0 : fOriginalPdfs.front().GetNDims();
 }
 
 double
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index fb8da5a..7c32966 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -74,7 +74,6 @@ private:
    std::vector<std::string> fNormNames; // parameter names of the normalisations, one per pdf
    bool fAllNormsDirFittable;
    int fNPdfs;
-   size_t fNDims;
 
    std::string fName; // component name
 
-- 
2.43.0


From 37a19c134410c70df65899073c34b317d92c8a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 65/89] fix: a systematic shared by two groups no longer keeps
 others out of the global group

---
 src/fitutil/SystematicManager.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index dd948d0..8167ccc 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -74,14 +74,12 @@ void SystematicManager::Add(Systematic *sys_)
 
 void SystematicManager::checkAllOtherGroups(const Systematic *syss_)
 {
-    std::set<std::string> allname;
-    allname.insert(syss_->GetName());
+    // only the new systematic matters here: two other groups may well share one
+    const std::string name = syss_->GetName();
     for (size_t j = 0; j < fGroups.at("").size(); ++j)
     {
-        if (allname.find(fGroups.at("").at(j)->GetName()) == allname.end())
-            allname.insert(fGroups.at("").at(j)->GetName());
-        else
-            throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << fGroups.at("").at(j)->GetName() << " is in the global systematic group more than once.");
+        if (fGroups.at("").at(j)->GetName() == name)
+            throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << name << " is in the global systematic group more than once.");
     }
     for (std::map<std::string, std::vector<Systematic *>>::const_iterator i = fGroups.begin(); i != fGroups.end(); ++i)
     {
@@ -89,12 +87,8 @@ void SystematicManager::checkAllOtherGroups(const Systematic *syss_)
             continue;
         for (std::vector<Systematic *>::const_iterator sys = i->second.begin(); sys != i->second.end(); ++sys)
         {
-            if (allname.find((*sys)->GetName()) == allname.end())
-            {
-                allname.insert((*sys)->GetName());
-            }
-            else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << (*sys)->GetName() << " is in the another group and therefore can't be added to the global systematics.");
+            if ((*sys)->GetName() == name)
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << name << " is in the another group and therefore can't be added to the global systematics.");
         }
     }
 }
-- 
2.43.0


From 371b43d36e978c46726aade31c113e6b9578eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 66/89] fix: failed reads of ROOT events are errors and a
 failed open closes the file

---
 src/data/ROOTNtuple.cpp | 18 ++++++++----------
 src/data/ROOTTree.cpp   | 18 ++++++++----------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/data/ROOTNtuple.cpp b/src/data/ROOTNtuple.cpp
index 4c783a5..1440121 100644
--- a/src/data/ROOTNtuple.cpp
+++ b/src/data/ROOTNtuple.cpp
@@ -1,28 +1,25 @@
 #include <ROOTNtuple.h>
 #include <Event.h>
 #include <iostream>
+#include <memory>
 #include <Exceptions.h>
 #include <TNtuple.h>
 #include <Formatter.hpp>
 
 ROOTNtuple::ROOTNtuple(const std::string &fileName_, const std::string &treeName_)
 {
-    fROOTFile = new TFile(fileName_.c_str());
+    // owned here until nothing can fail any more: the destructor does not run after an exception
+    std::unique_ptr<TFile> file(new TFile(fileName_.c_str()));
 
-    if (fROOTFile->IsZombie())
-    {
-        delete fROOTFile;
+    if (file->IsZombie())
         throw IOError("ROOTNtuple::File Does not Exist! or is Zombie " + fileName_);
-    }
 
-    fNtuple = dynamic_cast<TNtuple *>(fROOTFile->Get(treeName_.c_str()));
+    fNtuple = dynamic_cast<TNtuple *>(file->Get(treeName_.c_str()));
 
     if (!fNtuple)
-    {
-        delete fROOTFile;
         throw IOError(Formatter() << "ROOTNtuple::Tree does not exist, or isn't an ntuple! tree : " << treeName_ << ", filename: " << fileName_);
-    }
     GatherObservableNames();
+    fROOTFile = file.release();
 }
 
 ROOTNtuple::~ROOTNtuple()
@@ -45,7 +42,8 @@ Event ROOTNtuple::Assemble(size_t iEvent_) const
                                         << " \n\t(requested " << iEvent_
                                         << " but only have " << GetNEntries() << ")");
     fROOTFile->cd();
-    fNtuple->GetEntry(iEvent_);
+    if (fNtuple->GetEntry(iEvent_) <= 0)
+        throw IOError(Formatter() << "ROOTNtuple::Failed to read event " << iEvent_);
     float *vals = fNtuple->GetArgs();
     Event ret(std::vector<double>(vals, vals + GetNObservables()));
     ret.SetObservableNames(&fObsNames);
diff --git a/src/data/ROOTTree.cpp b/src/data/ROOTTree.cpp
index ee5f7b0..6b24636 100644
--- a/src/data/ROOTTree.cpp
+++ b/src/data/ROOTTree.cpp
@@ -1,6 +1,7 @@
 #include <ROOTTree.h>
 #include <Event.h>
 #include <iostream>
+#include <memory>
 #include <Exceptions.h>
 #include <TTree.h>
 #include <TLeaf.h>
@@ -8,22 +9,18 @@
 
 ROOTTree::ROOTTree(const std::string &fileName_, const std::string &treeName_)
 {
-    fROOTFile = new TFile(fileName_.c_str());
+    // owned here until nothing can fail any more: the destructor does not run after an exception
+    std::unique_ptr<TFile> file(new TFile(fileName_.c_str()));
 
-    if (fROOTFile->IsZombie())
-    {
-        delete fROOTFile;
+    if (file->IsZombie())
         throw IOError("ROOTTree::File Does not Exist! or is Zombie " + fileName_);
-    }
 
-    fTree = dynamic_cast<TTree *>(fROOTFile->Get(treeName_.c_str()));
+    fTree = dynamic_cast<TTree *>(file->Get(treeName_.c_str()));
 
     if (!fTree)
-    {
-        delete fROOTFile;
         throw IOError(Formatter() << "ROOTTree::Tree does not exist, or isn't a TTree! tree : " << treeName_ << ", filename: " << fileName_);
-    }
     GatherObservableNames();
+    fROOTFile = file.release();
 }
 
 ROOTTree::~ROOTTree()
@@ -48,7 +45,8 @@ Event ROOTTree::Assemble(size_t iEvent_) const
                                         << " but only have " << GetNEntries() << ")");
     fROOTFile->cd();
     // Fill the TLeaves with the info from the ith event in the tree
-    fTree->GetEntry(iEvent_);
+    if (fTree->GetEntry(iEvent_) <= 0)
+        throw IOError(Formatter() << "ROOTTree::Failed to read event " << iEvent_);
     // Now, get that info from those leaves!
     const size_t nObs = GetNObservables();
     std::vector<double> vals;
-- 
2.43.0


From 1f6fb106b8cbbfe18f46841d52259fdf50c36d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 67/89] fix: failed saves to ROOT files and names an ntuple
 cannot hold are reported

---
 src/data/IO.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index f391817..714162b 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -105,6 +105,10 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
         return;
     }
 
+    for (const std::string &name : dataSet_.GetObservableNames())
+        if (name.empty() || name.find(':') != std::string::npos)
+            throw IOError("IO::SaveDataSetROOT can't save an observable called '" + name + "' in an ntuple");
+
     std::string branchString = dataSet_.GetObservableNames().at(0);
     for (size_t i = 1; i < dataSet_.GetObservableNames().size(); i++)
     {
@@ -113,6 +117,8 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
     }
 
     TFile f(filename_.c_str(), "RECREATE");
+    if (f.IsZombie())
+        throw IOError("IO::SaveDataSetROOT failed to open " + filename_);
     TNtuple nt(treename_.c_str(), "", branchString.c_str());
 
     int oneTenth = dataSet_.GetNEntries() / 10;
@@ -128,12 +134,15 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
 
         f.cd();
         // and write
-        nt.Fill(&dataf[0]);
+        if (nt.Fill(&dataf[0]) < 0)
+            throw IOError("IO::SaveDataSetROOT failed to write to " + filename_);
     }
     f.cd();
 
-    nt.Write();
+    const int written = nt.Write();
     f.Close();
+    if (written <= 0 || f.TestBit(TFile::kWriteError))
+        throw IOError("IO::SaveDataSetROOT failed to write to " + filename_);
 }
 
 void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
@@ -381,20 +390,32 @@ void IO::SaveHistogram(const Histogram &hist_, const std::string &filename_, con
         throw IOError("IO::SaveDataSet Don't know how to save file as ." + ext);
 }
 
+// TObject::SaveAs does not say whether it worked
+template <typename T>
+static void SaveROOT(const std::string &filename_, const std::string &histname_, T &hist_)
+{
+    hist_.SetName(histname_.c_str());
+    TFile f(filename_.c_str(), "RECREATE");
+    if (f.IsZombie())
+        throw IOError("IO::SaveHistogramROOT failed to open " + filename_);
+    const int written = hist_.Write();
+    f.Close();
+    if (written <= 0 || f.TestBit(TFile::kWriteError))
+        throw IOError("IO::SaveHistogramROOT failed to write to " + filename_);
+}
+
 void IO::SaveHistogramROOT(const Histogram &hist_, const std::string &filename_, const std::string &histname_)
 {
     int dim = hist_.GetNDims();
     if (dim == 1)
     {
         TH1D hist = DistTools::ToTH1D(hist_);
-        hist.SetName(histname_.c_str());
-        hist.SaveAs(filename_.c_str());
+        SaveROOT(filename_, histname_, hist);
     }
     else if (dim == 2)
     {
         TH2D hist = DistTools::ToTH2D(hist_);
-        hist.SetName(histname_.c_str());
-        hist.SaveAs(filename_.c_str());
+        SaveROOT(filename_, histname_, hist);
     }
     else
         throw IOError(Formatter() << "IO::SaveHistogramROOT don't know how to save a " << dim
-- 
2.43.0


From 7f08d8a63460e8359fdfa0e4b07a2f229320aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 68/89] fix: histograms made from ROOT ones keep bins of
 unequal width

---
 src/dist/DistTools.cpp | 56 +++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/dist/DistTools.cpp b/src/dist/DistTools.cpp
index 58dd50e..90db163 100644
--- a/src/dist/DistTools.cpp
+++ b/src/dist/DistTools.cpp
@@ -171,16 +171,25 @@ TH3D DistTools::ToTH3D(const BinnedED &pdf_)
     return rtHist;
 }
 
+// the bins of a ROOT axis, whatever their widths
+static BinAxis
+ToBinAxis(const TAxis &axis_)
+{
+    std::vector<double> lowEdges;
+    std::vector<double> highEdges;
+    for (int i = 1; i < axis_.GetNbins() + 1; i++)
+    {
+        lowEdges.push_back(axis_.GetBinLowEdge(i));
+        highEdges.push_back(axis_.GetBinUpEdge(i));
+    }
+    return BinAxis(axis_.GetTitle(), lowEdges, highEdges);
+}
+
 Histogram
 DistTools::ToHist(const TH1D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -195,19 +204,9 @@ Histogram
 DistTools::ToHist(const TH2D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -229,26 +228,11 @@ Histogram
 DistTools::ToHist(const TH3D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    axes.AddAxis(BinAxis(h_.GetZaxis()->GetTitle(),
-                         h_.GetZaxis()->GetBinLowEdge(1),
-                         h_.GetZaxis()->GetBinUpEdge(h_.GetNbinsZ()),
-                         h_.GetNbinsZ())
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetZaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
-- 
2.43.0


From 1467fef4da5ed2dc2361e5dffaf9c0b222917fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 69/89] fix: BinnedNLLH keeps the cut log of the data it binned
 when it runs out of memory

---
 src/teststat/BinnedNLLH.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 6c781a5..4880547 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -140,8 +140,8 @@ void BinnedNLLH::BinData()
     dist.Empty();
     CutLog log(GetCuts().GetCutNames());
     DistFiller::FillDist(dist, *GetDataSet(), GetCuts(), log);
+    SetSignalCutLog(log); // the data count as binned once they are set, so they come last
     SetDataDist(dist);
-    SetSignalCutLog(log);
 }
 
 void BinnedNLLH::SetNormalisations(const std::vector<double> &norms_)
-- 
2.43.0


From 05fc1ff5d79706740d0aebb4f872ddfab8353137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 70/89] fix: refuse a correlated constraint whose correlation
 is -1 or beyond one, for which the penalty is not finite or negative

---
 src/constraint/BivariateQuadraticConstraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constraint/BivariateQuadraticConstraint.h b/src/constraint/BivariateQuadraticConstraint.h
index 61a336b..4672c49 100644
--- a/src/constraint/BivariateQuadraticConstraint.h
+++ b/src/constraint/BivariateQuadraticConstraint.h
@@ -16,9 +16,9 @@ public:
     // Main constructor
     BivariateQuadraticConstraint(double mean_1, double sigma_1, double mean_2, double sigma_2, double correlation) : fMean1(mean_1), fSigma1(sigma_1), fMean2(mean_2), fSigma2(sigma_2), fCorr(correlation)
     {
-        if (fCorr == 1.)
+        if (!(fCorr > -1. && fCorr < 1.))
         {
-            throw ValueError("BivariateQuadraticConstraint: correlation cannot be equal to 1!");
+            throw ValueError("BivariateQuadraticConstraint: correlation must lie strictly between -1 and 1!");
         }
     }
     // Evaluate constraint at a particular pair of values
-- 
2.43.0


From 74b2f66b56d6484356ae57572234581e03101f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 71/89] fix: counting reports give every background its own
 error, also when two share a name

---
 src/count/CountingResult.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index a4846ab..0e74cff 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -4,7 +4,6 @@
 #include <Comparison.hpp>
 #include <utility>
 #include <algorithm>
-#include <map>
 #include <numeric>
 #include <fstream>
 #include <iostream>
@@ -151,26 +150,23 @@ CountingResult::AsString()
                  << std::setw(10)
                  << "Counts";
 
-    std::vector<std::pair<std::string, double>> sortedRatesByName;
-    std::map<std::string, double> sortedErrorsByName;
+    // largest first, backgrounds can share a name so sort their positions
+    std::vector<std::pair<size_t, double>> sortedRates;
     for (size_t i = 0; i < fExpectedRates.size(); i++)
-    {
-        sortedRatesByName.push_back(std::pair<std::string, double>(fBackgroundNames.at(i), fExpectedRates.at(i)));
-        sortedErrorsByName[fBackgroundNames.at(i)] = fExpectedRateErrors.at(i);
-    }
-    std::sort(sortedRatesByName.begin(), sortedRatesByName.end(), PairSortBySecond<std::string, double, std::greater<double>>());
+        sortedRates.push_back(std::pair<size_t, double>(i, fExpectedRates.at(i)));
+    std::sort(sortedRates.begin(), sortedRates.end(), PairSortBySecond<size_t, double, std::greater<double>>());
 
-    for (size_t i = 0; i < sortedRatesByName.size(); i++)
+    for (size_t i = 0; i < sortedRates.size(); i++)
     {
         resultString << "\n"
                      << std::setw(25)
                      << std::left
-                     << sortedRatesByName.at(i).first
+                     << fBackgroundNames.at(sortedRates.at(i).first)
                      << std::setw(10)
                      << std::left
-                     << sortedRatesByName.at(i).second
+                     << sortedRates.at(i).second
                      << " +- "
-                     << sortedErrorsByName[sortedRatesByName.at(i).first];
+                     << fExpectedRateErrors.at(sortedRates.at(i).first);
     }
 
     resultString << "\n"
-- 
2.43.0


From 25c2efb3db233e877e148f881c9010066671f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:45 +0000
Subject: [PATCH 72/89] fix: AutoCorrelationCalc::Var divides by the number of
 values and sums the squares as doubles

---
 src/optimise/AutoCorrelationCalc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimise/AutoCorrelationCalc.cpp b/src/optimise/AutoCorrelationCalc.cpp
index 68be4f1..5a55601 100644
--- a/src/optimise/AutoCorrelationCalc.cpp
+++ b/src/optimise/AutoCorrelationCalc.cpp
@@ -44,8 +44,8 @@ double
 AutoCorrelationCalc::Var() const
 {
     double mean = Mean();
-    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0);
-    return sumSq - mean * mean;
+    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0.0);
+    return sumSq / fValues.size() - mean * mean;
 }
 
 void AutoCorrelationCalc::Clear()
-- 
2.43.0


From 40f2cb65e4ff9066afca18e4e67ca0d5df9a4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:02 +0000
Subject: [PATCH 73/89] fix: a matrix of zeros assigned to another of the same
 size leaves no old elements behind

---
 src/core/SparseMatrix.cpp | 16 +++++++++++++++-
 src/core/SparseMatrix.h   |  3 +++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index 1631b80..8cfd99d 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -11,6 +11,17 @@ SparseMatrix::SparseMatrix(size_t rows_, size_t cols_)
     fArmaMat = arma::sp_mat(fNRows, fNCols);
 }
 
+// Takes over the memory of the copy: armadillo leaves the old elements behind when a matrix of zeros
+// is copied onto one of the same size whose elements were all set to zero (the same goes for *= 0)
+SparseMatrix &
+SparseMatrix::operator=(SparseMatrix other_)
+{
+    fArmaMat = std::move(other_.fArmaMat);
+    fNRows = other_.fNRows;
+    fNCols = other_.fNCols;
+    return *this;
+}
+
 void SparseMatrix::PrintDense(const std::string &prefix_ = "") const
 {
     fArmaMat.print(prefix_);
@@ -113,5 +124,8 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
 
 void SparseMatrix::Scale(double scale_)
 {
-    fArmaMat *= scale_;
+    if (scale_ == 0)
+        fArmaMat = arma::sp_mat(fArmaMat.n_rows, fArmaMat.n_cols);
+    else
+        fArmaMat *= scale_;
 }
diff --git a/src/core/SparseMatrix.h b/src/core/SparseMatrix.h
index 8b684ca..e2a491f 100644
--- a/src/core/SparseMatrix.h
+++ b/src/core/SparseMatrix.h
@@ -16,6 +16,9 @@ class SparseMatrix
 public:
    SparseMatrix() : fNRows(0), fNCols(0) {}
    SparseMatrix(size_t rows_, size_t cols_);
+   SparseMatrix(const SparseMatrix &) = default;
+   SparseMatrix(SparseMatrix &&) = default;
+   SparseMatrix &operator=(SparseMatrix other_);
    std::vector<double> operator()(const std::vector<double> &input_) const;
 
    void SetComponent(size_t row_, size_t column_, double val_);
-- 
2.43.0


From b892d58361249a1dce06d9882a8b40678328b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 74/89] fix: bins and axes that do not exist are refused when
 an index is unpacked, in one dimension too

---
 src/histogram/AxisCollection.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/histogram/AxisCollection.cpp b/src/histogram/AxisCollection.cpp
index 6126f2d..2d14e52 100644
--- a/src/histogram/AxisCollection.cpp
+++ b/src/histogram/AxisCollection.cpp
@@ -130,15 +130,19 @@ AxisCollection::FindBin(const std::vector<double> &vals_) const
 size_t
 AxisCollection::UnflattenIndex(size_t index_, size_t dim_) const
 {
-    if (fNDimensions == 1)
-        return index_;
-
-    if (index_ >= fNBins)
+    if (dim_ >= fNDimensions)
         throw NotFoundError(Formatter()
                             << "Can't unflatten index in non-existent"
                             << "dimension  "
                             << dim_);
 
+    if (index_ >= fNBins)
+        throw NotFoundError(Formatter() << "AxisCollection: can't unflatten index "
+                                        << index_ << ", nBins = " << fNBins);
+
+    if (fNDimensions == 1)
+        return index_;
+
     size_t x = 1;
     for (size_t i = dim_ + 1; i < fNDimensions; i++)
         x *= fAxisNbins[i];
-- 
2.43.0


From b33490e4687372e3077e1c4d2dbecbcb1f8699dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 75/89] fix: a distribution whose systematic groups are refused
 is not left half added to the likelihood

---
 src/teststat/BinnedNLLH.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 4880547..8027195 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -252,16 +252,16 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 {
     if (fUseBarlowBeeston)
         throw OXSXException(Formatter() << "BinnedNLLH:: Must set generated rates if using Barlow-Beeston");
+    GetSystematicManager().AddDist(pdf_, syss_); // refuses groups it does not know, so it comes first
     fPdfManager.AddPdf(pdf_, norm_fitting_status);
-    GetSystematicManager().AddDist(pdf_, syss_);
 }
 
 void BinnedNLLH::AddPdf(const BinnedED &pdf_,
                         const int &genrate_,
                         const NormFittingStatus norm_fitting_status)
 {
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, "");
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     fGenRates.push_back(genrate_);
 }
 
@@ -270,8 +270,8 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 {
     if (fUseBarlowBeeston)
         throw OXSXException(Formatter() << "BinnedNLLH:: Must set generated rates if using Barlow-Beeston");
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, "");
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
 }
 
 void BinnedNLLH::AddPdf(const BinnedED &pdf_,
@@ -279,8 +279,8 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
                         const int &genrate_,
                         const NormFittingStatus norm_fitting_status)
 {
+    GetSystematicManager().AddDist(pdf_, syss_); // refuses groups it does not know, so it comes first
     fPdfManager.AddPdf(pdf_, norm_fitting_status);
-    GetSystematicManager().AddDist(pdf_, syss_);
     fGenRates.push_back(genrate_);
 }
 
-- 
2.43.0


From 0584f1903a3610c7d78e428f2a959555d1756839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 76/89] fix: as many generated rates and fitting statuses as
 distributions are required when a likelihood gets them

---
 src/teststat/BinnedNLLH.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 8027195..fa2835c 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -186,7 +186,8 @@ void BinnedNLLH::AddPdfs(const std::vector<BinnedED> &pdfs,
                          const std::vector<int> &genrates_,
                          const std::vector<NormFittingStatus> *norm_fitting_statuses)
 {
-
+    if (pdfs.size() != genrates_.size())
+        throw DimensionError("BinnedNLLH: number of generated rates doesn't match the number of pdfs");
     if (norm_fitting_statuses != nullptr && pdfs.size() != norm_fitting_statuses->size())
     {
         throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
@@ -233,6 +234,12 @@ void BinnedNLLH::AddPdfs(const std::vector<BinnedED> &pdfs,
 {
     if (pdfs.size() != sys_.size())
         throw DimensionError(Formatter() << "BinnedNLLH:: #sys_ != #group_");
+    if (pdfs.size() != genrates_.size())
+        throw DimensionError("BinnedNLLH: number of generated rates doesn't match the number of pdfs");
+    if (norm_fitting_statuses != nullptr && pdfs.size() != norm_fitting_statuses->size())
+    {
+        throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
+    }
     for (size_t i = 0; i < pdfs.size(); i++)
     {
         if (norm_fitting_statuses != nullptr)
-- 
2.43.0


From f3f0f72c4be1109ef11cede276c587fdf04dc021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:33 +0000
Subject: [PATCH 77/89] fix: a Markov chain refuses limits of the right number
 for the wrong parameters

---
 src/optimise/MCMC.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 9ad2bfc..2440070 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -152,6 +152,11 @@ MCMC::Optimise(TestStatistic *testStat_)
                          << ContainerTools::ToString(testStat_->GetParameterNames())
                          << "\n If initial trial is specified it should be one per fit parameter");
 
+    const std::set<std::string> fitParameters = testStat_->GetParameterNames();
+    for (const std::string &name : fitParameters)
+        if (!fMinima.count(name) || !fMaxima.count(name) || (fInitialTrial.size() && !fInitialTrial.count(name)))
+            throw LogicError("MCMC initialisation error - no limits or no initial value for the fit parameter " + name);
+
     // every chain starts afresh
     fSamples.Clear();
     fCurrentStep.clear();
-- 
2.43.0


From a3ed227c0fa326706b9ac9a4bcc81fbb9349066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:24 +0000
Subject: [PATCH 78/89] fix: a section line without its closing bracket is
 refused in a configuration file

---
 src/config/ini.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config/ini.hpp b/src/config/ini.hpp
index 1025144..59a4265 100644
--- a/src/config/ini.hpp
+++ b/src/config/ini.hpp
@@ -126,6 +126,10 @@ namespace INI
       if (line_[depth] != '[')
         break;
 
+    // as many closing brackets as opening ones have to end the line
+    if (line_.length() < 2 * depth || line_.find_last_not_of(']') + depth + 1 > line_.length())
+      err("section name without closing bracket");
+
     sname = line_.substr(depth, line_.length() - 2 * depth);
   }
 
-- 
2.43.0


From 0d35c9c334013bbd4be30cec42f37477083ae106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:37 +0000
Subject: [PATCH 79/89] fix: BinnedNLLH registers systematics of the same name
 in different groups

Two systematics that share a name but are in different groups were taken for
one: the parameters of the second were not among the fit's and could not be set.
---
 src/teststat/BinnedNLLH.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index fa2835c..94e6a00 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -349,15 +349,16 @@ void BinnedNLLH::RegisterFitComponents()
 
     // Because the limits are set by name they can be added in any order.
     const std::map<std::string, std::vector<Systematic *>> sys_ = GetSystematicManager().GetSystematicsGroup();
-    std::vector<std::string> alreadyAdded;
+    // A systematic may be in several groups: it is registered once. Different ones may share a name.
+    std::vector<const Systematic *> alreadyAdded;
     for (const auto &group_ : sys_)
     {
         for (const auto &item : group_.second)
         {
-            if (std::find(alreadyAdded.begin(), alreadyAdded.end(), item->GetName()) == alreadyAdded.end())
+            if (std::find(alreadyAdded.begin(), alreadyAdded.end(), item) == alreadyAdded.end())
             {
                 GetComponentManager().AddComponent(item);
-                alreadyAdded.push_back(item->GetName());
+                alreadyAdded.push_back(item);
             }
         } // End of group
     } // End of groups
-- 
2.43.0


From 926115f57fe1d2dfb7b0be25b395fb4d6e369f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:25 +0000
Subject: [PATCH 80/89] fix: a draw that fails half-way does not take events
 from the earlier data sets

When the second of several data sets had too few events left, or memory ran out,
the events already drawn without replacement were gone although none was handed out.
---
 src/data/DataSetGenerator.cpp | 32 +++++++++++++++++++++-----------
 src/data/DataSetGenerator.h   |  1 +
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index fcde597..e8605e7 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -52,6 +52,7 @@ DataSetGenerator::ExpectedRatesDataSet(std::vector<int> *eventsTaken_)
 
   OXSXDataSet dataSet;
   dataSet.SetObservableNames(fDataSets.at(0)->GetObservableNames());
+  std::vector<size_t> counts;
   for (size_t i = 0; i < fDataSets.size(); i++)
   {
     unsigned expectedCounts = round(fExpectedRates.at(i));
@@ -74,7 +75,9 @@ DataSetGenerator::ExpectedRatesDataSet(std::vector<int> *eventsTaken_)
     }
     if (eventsTaken_)
       eventsTaken_->push_back(expectedCounts);
+    counts.push_back(expectedCounts);
   }
+  RemoveFromPools(counts);
 
   return dataSet;
 }
@@ -99,6 +102,7 @@ DataSetGenerator::PoissonFluctuatedDataSet(std::vector<int> *eventsTaken_)
   OXSXDataSet dataSet;
   dataSet.SetObservableNames(fDataSets.at(0)->GetObservableNames());
   dataSet.Reserve(eventsNeeded);
+  std::vector<size_t> allCounts;
 
   for (size_t i = 0; i < fDataSets.size(); i++)
   {
@@ -125,7 +129,9 @@ DataSetGenerator::PoissonFluctuatedDataSet(std::vector<int> *eventsTaken_)
 
     if (eventsTaken_)
       eventsTaken_->push_back(counts);
+    allCounts.push_back(counts);
   }
+  RemoveFromPools(allCounts);
   return dataSet;
 }
 
@@ -193,6 +199,15 @@ DataSetGenerator::GetPool(size_t handleIndex_)
   return pool;
 }
 
+// The events drawn without replacement are gone, once the whole data set is drawn:
+// a request that fails hands out nothing and so must take nothing
+void DataSetGenerator::RemoveFromPools(const std::vector<size_t> &counts_)
+{
+  for (size_t i = 0; i < counts_.size(); i++)
+    if (!fBootstraps.at(i))
+      fEventIndicies.at(i).resize(fEventIndicies.at(i).size() - counts_.at(i));
+}
+
 void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_,
                                                 OXSXDataSet &outData_)
 {
@@ -213,16 +228,14 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    // draw, swap to the back
-    std::swap(pool[Rand::Shoot(pool.size())], pool.back());
+    // draw, swap to the back of what is left
+    size_t nLeft = pool.size() - i;
+    std::swap(pool[Rand::Shoot(nLeft)], pool[nLeft - 1]);
 
     // return
-    Event event = origData->GetEntry(pool.back());
+    Event event = origData->GetEntry(pool[nLeft - 1]);
     if (fCuts.PassesCuts(event))
       outData_.AddEntry(event);
-
-    // and it's gone
-    pool.pop_back();
   }
 
   return;
@@ -284,7 +297,7 @@ void DataSetGenerator::ClearDataSets()
 
 void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_)
 {
-  std::vector<size_t> &pool = GetPool(handleIndex_);
+  const std::vector<size_t> &pool = GetPool(handleIndex_);
   DataSet *origData = fDataSets.at(handleIndex_);
 
   if (!(origData->GetNEntries()))
@@ -303,12 +316,9 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
       std::cout << i << "/" << nEvents_ << "   (  " << 10 * i / oneTenth << " %)" << std::endl;
 
     // always take the next one
-    Event event = origData->GetEntry(pool.back());
+    Event event = origData->GetEntry(pool[pool.size() - 1 - i]);
     if (fCuts.PassesCuts(event))
       data_.AddEntry(event);
-
-    // and it's gone
-    pool.pop_back();
   }
 
   return;
diff --git a/src/data/DataSetGenerator.h b/src/data/DataSetGenerator.h
index ef2bca3..ddd4b25 100644
--- a/src/data/DataSetGenerator.h
+++ b/src/data/DataSetGenerator.h
@@ -48,6 +48,7 @@ private:
    std::vector<std::vector<size_t>> fEventIndicies;
    std::vector<bool> fPoolFilled;
    std::vector<size_t> &GetPool(size_t handleIndex_);
+   void RemoveFromPools(const std::vector<size_t> &counts_);
    void RandomDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void SequentialDrawsNoReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
    void RandomDrawsWithReplacement(size_t handleIndex_, size_t nEvents_, OXSXDataSet &data_);
-- 
2.43.0


From 2770de7c5b799e5f828622b6f080b2bd9b20b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:00 +0000
Subject: [PATCH 81/89] fix: a grid search includes the end of a range reached
 up to rounding

---
 src/optimise/GridSearch.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index 2339318..b356eaa 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -91,7 +91,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
         gridCounts[it->first] = 1;
         if (fMaxima[it->first] == it->second)
             continue; // just the one value
-        size_t axisCounts = 1 + static_cast<size_t>((fMaxima[it->first] - it->second) / fStepSizes[it->first]);
+        size_t axisCounts = 1 + static_cast<size_t>((fMaxima[it->first] - it->second) / fStepSizes[it->first] + 1e-6);
         maxSteps *= axisCounts;
         gridCounts[it->first] = axisCounts;
     }
@@ -155,6 +155,11 @@ bool GridSearch::Increment(ParameterDict::iterator it_,
     const std::string paramToChange = it_->first;
     fParamVals[paramToChange] += fStepSizes.at(paramToChange);
 
+    // the last point can end up past the maximum by a rounding error: it is part of the grid
+    const double overshoot = fParamVals[paramToChange] - fMaxima.at(paramToChange);
+    if (overshoot > 0 && overshoot < 1e-6 * fStepSizes.at(paramToChange) && fMinima.at(paramToChange) != fMaxima.at(paramToChange))
+        fParamVals[paramToChange] = fMaxima.at(paramToChange);
+
     // wrap around past the maximum, straight away if there is only one value
     if (fParamVals[paramToChange] > fMaxima.at(paramToChange) || fMinima.at(paramToChange) == fMaxima.at(paramToChange))
     {
-- 
2.43.0


From d2363cfb5ae377df8a86a1e632345296406f8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:44 +0000
Subject: [PATCH 82/89] fix: a data set that is assigned when memory runs out
 keeps its old events and names

---
 src/data/OXSXDataSet.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index 0f808a2..0d6d8d1 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -13,10 +13,12 @@ OXSXDataSet::OXSXDataSet(const OXSXDataSet &other_) : DataSet(other_), fData(oth
 OXSXDataSet &
 OXSXDataSet::operator=(const OXSXDataSet &other_)
 {
-    fData = other_.fData;
+    // copied first: if there is no memory for that nothing changes
+    OXSXDataSet copy(other_);
+    fData.swap(copy.fData);
+    fObservableNames.swap(copy.fObservableNames);
+    fNObservables = copy.fNObservables;
     LinkEvents();
-    fObservableNames = other_.fObservableNames;
-    fNObservables = other_.fNObservables;
     return *this;
 }
 
@@ -62,7 +64,8 @@ OXSXDataSet::GetNEntries() const
 
 void OXSXDataSet::SetObservableNames(const std::vector<std::string> &names_)
 {
-    fObservableNames = names_;
+    std::vector<std::string> names(names_);
+    fObservableNames.swap(names);
 }
 
 std::vector<std::string>
-- 
2.43.0


From 9719d1a6da71b465928fa16380b012a8dea97a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:44 +0000
Subject: [PATCH 83/89] fix: copies that run out of memory half-way free what
 they had made

---
 src/core/ParameterManager.cpp            | 10 ++++++++--
 src/core/ParameterManager.hpp            |  3 ++-
 src/cut/CutCollection.cpp                | 13 +++++++++++--
 src/dist/CompositeED.cpp                 | 10 +++++++---
 src/dist/CompositeED.h                   |  1 +
 src/eventSystematic/EventConvolution.cpp |  8 +++-----
 src/fitutil/EDManager.cpp                | 15 +++++++++++++--
 src/function/JumpPDF.cpp                 |  6 +-----
 src/function/VaryingCDF.cpp              |  5 +++--
 src/optimise/FitResult.cpp               |  7 ++-----
 src/systematic/Convolution.cpp           | 12 ++++++------
 11 files changed, 57 insertions(+), 33 deletions(-)

diff --git a/src/core/ParameterManager.cpp b/src/core/ParameterManager.cpp
index c26c45d..fd688d1 100644
--- a/src/core/ParameterManager.cpp
+++ b/src/core/ParameterManager.cpp
@@ -3,6 +3,7 @@
 #include <iostream>
 #include <ContainerTools.hpp>
 #include <Exceptions.h>
+#include <memory>
 
 using ContainerTools::CompareKeys;
 using ContainerTools::GetKeys;
@@ -54,12 +55,17 @@ ParameterManager::GetParameterCount() const
 
 void ParameterManager::Add(FitParameter *p_, const std::string &n_)
 {
-    fParamPtrs[n_] = p_;
+    // the manager owns it from here on, also if there is no memory for the name
+    std::unique_ptr<FitParameter> param(p_);
+    FitParameter *&existing = fParamPtrs[n_];
+    if (existing != p_)
+        delete existing;
+    existing = param.release();
 }
 
 void ParameterManager::AddDouble(double &d_, const std::string &n_)
 {
-    fParamPtrs[n_] = new DoubleParameter(d_);
+    Add(new DoubleParameter(d_), n_);
 }
 
 void ParameterManager::Clear()
diff --git a/src/core/ParameterManager.hpp b/src/core/ParameterManager.hpp
index 10e5ec4..351e5ce 100644
--- a/src/core/ParameterManager.hpp
+++ b/src/core/ParameterManager.hpp
@@ -10,7 +10,8 @@ void ParameterManager::AddContainer(Container &cntr_,
     for (size_t i = 0; i < cntr_.size(); i++)
     {
         ss << sharedName_ << "_" << i;
-        Add(new ContainerParameter<Container>(cntr_, i), ss.str());
+        const std::string name = ss.str();
+        Add(new ContainerParameter<Container>(cntr_, i), name);
         ss.str("");
     }
 }
diff --git a/src/cut/CutCollection.cpp b/src/cut/CutCollection.cpp
index 01a3748..3860f36 100644
--- a/src/cut/CutCollection.cpp
+++ b/src/cut/CutCollection.cpp
@@ -27,7 +27,16 @@ bool CutCollection::PassesCuts(const Event &event_, CutLog &log_) const
 
 void CutCollection::AddCut(const Cut &cut_)
 {
-  fCuts.push_back(cut_.Clone());
+  fCuts.push_back(NULL);
+  try
+  {
+    fCuts.back() = cut_.Clone();
+  }
+  catch (...)
+  {
+    fCuts.pop_back();
+    throw;
+  }
 }
 
 CutCollection::~CutCollection()
@@ -38,7 +47,7 @@ CutCollection::~CutCollection()
   }
 }
 
-CutCollection::CutCollection(const CutCollection &other_)
+CutCollection::CutCollection(const CutCollection &other_) : CutCollection()
 {
   fCuts.reserve(other_.fCuts.size());
   for (size_t i = 0; i < other_.fCuts.size(); i++)
diff --git a/src/dist/CompositeED.cpp b/src/dist/CompositeED.cpp
index 94225c2..1d51f78 100644
--- a/src/dist/CompositeED.cpp
+++ b/src/dist/CompositeED.cpp
@@ -3,15 +3,17 @@
 #include <Exceptions.h>
 #include <iostream>
 
-CompositeED::CompositeED(const EventDistribution *p1_, const EventDistribution *p2_)
+CompositeED::CompositeED(const EventDistribution *p1_, const EventDistribution *p2_) : CompositeED()
 {
+    fDistPtrs.reserve(2);
     fDistPtrs.push_back(p1_->Clone());
     fDistPtrs.push_back(p2_->Clone());
     fName = p1_->GetName() + "*" + p2_->GetName();
 }
 
-CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_)
+CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_) : CompositeED()
 {
+    fDistPtrs.reserve(pdfs_.size());
     // if one of the pdfs is composite itself the copy will happen recursively all the way down
     std::string name;
     for (size_t i = 0; i < pdfs_.size(); i++)
@@ -24,8 +26,10 @@ CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_)
     fName = name;
 }
 
-CompositeED::CompositeED(const CompositeED &other_) : EventDistribution(other_), fName(other_.fName)
+CompositeED::CompositeED(const CompositeED &other_) : CompositeED()
 {
+    fName = other_.fName;
+    fDistPtrs.reserve(other_.fDistPtrs.size());
     for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
         fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
 }
diff --git a/src/dist/CompositeED.h b/src/dist/CompositeED.h
index 99bb8a7..9a88c16 100644
--- a/src/dist/CompositeED.h
+++ b/src/dist/CompositeED.h
@@ -33,6 +33,7 @@ public:
    void SetName(const std::string &);
 
 private:
+   CompositeED() {}
    std::string fName;
    std::vector<EventDistribution *> fDistPtrs;
 };
diff --git a/src/eventSystematic/EventConvolution.cpp b/src/eventSystematic/EventConvolution.cpp
index d4fa258..0448f9e 100644
--- a/src/eventSystematic/EventConvolution.cpp
+++ b/src/eventSystematic/EventConvolution.cpp
@@ -15,15 +15,13 @@ EventConvolution::~EventConvolution()
   delete fDist;
 }
 
-EventConvolution::EventConvolution(const EventConvolution &other_)
+EventConvolution::EventConvolution(const EventConvolution &other_) : fDist(NULL)
 {
-  if (other_.fDist)
-    fDist = other_.fDist->Clone();
-  else
-    fDist = NULL;
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
   fName = other_.fName;
+  if (other_.fDist)
+    fDist = other_.fDist->Clone();
 }
 
 EventConvolution &
diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index d3b18bf..644493e 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -46,10 +46,21 @@ void EDManager::AddDist(EventDistribution *pdf_)
         throw DimensionError("EDManager::AddDist", fNDims, pdf_->GetNDims(),
                              " dimensions in added pdf");
 
-    fDists.push_back(pdf_->Clone());
+    // make room first: if there is no memory for that nothing changes
+    fDists.reserve(fNDists + 1);
+    fNormalisations.reserve(fNDists + 1);
+    fNormNames.push_back(pdf_->GetName());
+    try
+    {
+        fDists.push_back(pdf_->Clone());
+    }
+    catch (...)
+    {
+        fNormNames.pop_back();
+        throw;
+    }
     fNDists++;
     fNormalisations.resize(fNDists, 0);
-    fNormNames.push_back(pdf_->GetName());
     RegisterParameters();
 }
 
diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 0b8e4f1..b53533a 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -23,14 +23,10 @@ JumpPDF::~JumpPDF()
   delete fPDF;
 }
 
-JumpPDF::JumpPDF(const JumpPDF &other_)
+JumpPDF::JumpPDF(const JumpPDF &other_) : fPDF(NULL), fName(other_.fName)
 {
   if (other_.fPDF)
     fPDF = static_cast<PDF *>(other_.fPDF->Clone());
-  else
-    fPDF = NULL;
-
-  fName = other_.fName;
 }
 
 JumpPDF &
diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index b4e0125..76789a3 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -33,11 +33,12 @@ VaryingCDF::~VaryingCDF()
     }
 }
 
-VaryingCDF::VaryingCDF(const VaryingCDF &copy_) : fCdf(NULL), fName(copy_.fName)
+VaryingCDF::VaryingCDF(const VaryingCDF &copy_) : VaryingCDF(copy_.fName)
 {
     // every copy owns its functions and its kernel
+    fName = copy_.fName;
     for (std::map<std::string, Function *>::const_iterator it = copy_.fFunctions.begin(); it != copy_.fFunctions.end(); ++it)
-        fFunctions[it->first] = it->second->Clone();
+        SetDependance(it->first, it->second);
     if (copy_.fCdf)
         fCdf = copy_.fCdf->Clone();
 }
diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index 63b2cd5..b5831d0 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -55,12 +55,9 @@ FitResult::operator=(const FitResult &other_)
     return *this;
 }
 
-FitResult::FitResult(const FitResult &other_)
+FitResult::FitResult(const FitResult &other_) : FitResult()
 {
-    if (!other_.fStatSpace)
-        fStatSpace = NULL;
-
-    else
+    if (other_.fStatSpace)
         fStatSpace = new Histogram(*other_.fStatSpace);
     fStatSample = other_.fStatSample;
     fBestFit = other_.fBestFit;
diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index 52cbeb9..2f1643e 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -21,9 +21,10 @@ void Convolution::SetConditionalPDF(ConditionalPDF *c_)
 }
 
 Convolution::Convolution(const Convolution &other_)
-    : Systematic(other_), fDist(other_.fDist ? other_.fDist->Clone() : NULL), fName(other_.fName),
-      fCachedIndexPermutations(false)
+    : Systematic(other_), fDist(NULL), fName(other_.fName), fCachedIndexPermutations(false)
 {
+    if (other_.fDist)
+        fDist = other_.fDist->Clone();
 }
 
 Convolution &
@@ -31,11 +32,10 @@ Convolution::operator=(const Convolution &other_)
 {
     if (this == &other_)
         return *this;
-    ConditionalPDF *dist = other_.fDist ? other_.fDist->Clone() : NULL;
+    Convolution copy(other_);
     Systematic::operator=(other_);
-    delete fDist;
-    fDist = dist;
-    fName = other_.fName;
+    std::swap(fDist, copy.fDist);
+    fName.swap(copy.fName);
     fCachedIndexPermutations = false;
     return *this;
 }
-- 
2.43.0


From fd94f6471735cb231b7b588068c7998638d45e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:03 +0000
Subject: [PATCH 84/89] fix: a paged data set for whose names there was no
 memory is loaded again

---
 src/data/LazyOXSXDataSet.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index f9687fe..ee6d6d8 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -1,6 +1,7 @@
 #include <LazyOXSXDataSet.h>
 #include <IO.h>
 #include <algorithm>
+#include <memory>
 
 LazyOXSXDataSet::~LazyOXSXDataSet()
 {
@@ -51,8 +52,11 @@ void LazyOXSXDataSet::Load() const
 {
   for (size_t i = 0; i < fFiles.size(); i++)
     fFiles[i]->Close();
-  fDataSet = IO::LoadDataSet(fFileName);
-  fObservableNames = fDataSet->GetObservableNames();
+  // the data only count as loaded once their names are there too
+  std::unique_ptr<OXSXDataSet> data(IO::LoadDataSet(fFileName));
+  std::vector<std::string> names = data->GetObservableNames();
+  fObservableNames.swap(names);
+  fDataSet = data.release();
 }
 
 void LazyOXSXDataSet::Close() const
-- 
2.43.0


From 48fbb5f1e46e8c0f2e34fbab0351f8c78204fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:26 +0000
Subject: [PATCH 85/89] fix: a systematic without memory for its new axes keeps
 the old ones

SetAxes assigned the axes before it made the response matrix and forgot the
mapping of the bins. When it ran out of memory in between, the systematic had
the new axes, or a mixture, with the mapping of the old ones, and constructed
a wrong response without saying so.
---
 src/systematic/Systematic.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/systematic/Systematic.cpp b/src/systematic/Systematic.cpp
index cb53319..7a97618 100644
--- a/src/systematic/Systematic.cpp
+++ b/src/systematic/Systematic.cpp
@@ -95,7 +95,9 @@ Systematic::GetAxes() const
 
 void Systematic::SetAxes(const AxisCollection &axes_)
 {
-    fAxes = axes_;
-    SetResponse(SparseMatrix(axes_.GetNBins(), axes_.GetNBins()));
+    // copy first, so that running out of memory leaves no new axes with the old response and bin mapping
+    AxisCollection axes(axes_);
+    SetResponse(SparseMatrix(axes.GetNBins(), axes.GetNBins()));
+    std::swap(fAxes, axes);
     ResetCache();
 }
-- 
2.43.0


From 4ac61906d6a6d853761079fbc64c9958a16e09c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:58 +0000
Subject: [PATCH 86/89] fix: functions that were declared but never defined

MCMC::GetRejectionRate, CutLog::GetRemainderCounts, CutLog::GetRemainderPercentages
and EventReconvolution::GetCorrection could not be linked.
---
 src/cut/CutLog.cpp                         | 12 ++++++++++++
 src/eventSystematic/EventReconvolution.cpp |  6 ++++++
 src/optimise/MCMC.cpp                      |  6 ++++++
 3 files changed, 24 insertions(+)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 0c74b8d..b56d409 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -45,12 +45,24 @@ CutLog::GetCutCounts() const
     return fCutCounts;
 }
 
+std::vector<int>
+CutLog::GetRemainderCounts() const
+{
+    return fRemainderCounts;
+}
+
 std::vector<double>
 CutLog::GetCutPercentages() const
 {
     return fCutPercentages;
 }
 
+std::vector<double>
+CutLog::GetRemainderPercentages() const
+{
+    return fRemainderPercentages;
+}
+
 std::vector<std::string>
 CutLog::GetCutNames() const
 {
diff --git a/src/eventSystematic/EventReconvolution.cpp b/src/eventSystematic/EventReconvolution.cpp
index 9a4486a..b95deef 100644
--- a/src/eventSystematic/EventReconvolution.cpp
+++ b/src/eventSystematic/EventReconvolution.cpp
@@ -30,6 +30,12 @@ void EventReconvolution::SetCorrection(double correction_)
     fCorrection = correction_;
 }
 
+double
+EventReconvolution::GetCorrection() const
+{
+    return fCorrection;
+}
+
 // Fit Component Interface
 
 void EventReconvolution::SetParameter(const std::string &name_, double value)
diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 2440070..9c98070 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -58,6 +58,12 @@ MCMC::GetSamples() const
     return fSamples;
 }
 
+double
+MCMC::GetRejectionRate() const
+{
+    return fSamples.GetRejectionRate();
+}
+
 ParameterDict
 MCMC::GetMinima() const
 {
-- 
2.43.0


From e445ef797bf7ed6a9eb2685b1962d2428f9b35b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:27 +0000
Subject: [PATCH 87/89] fix: BinnedEDGenerator puts no events into the first
 bin for an empty pdf

---
 src/dist/BinnedEDGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dist/BinnedEDGenerator.cpp b/src/dist/BinnedEDGenerator.cpp
index a59cc6e..1e02e64 100644
--- a/src/dist/BinnedEDGenerator.cpp
+++ b/src/dist/BinnedEDGenerator.cpp
@@ -97,6 +97,9 @@ BinnedEDGenerator::RandomBin(size_t pdfIndex_) const
         cdf[i] = sum;
     }
 
+    if (!(sum > 0))
+        throw ValueError("BinnedEDGenerator::Can't draw from " + fPdfs.at(pdfIndex_).GetName() + ", it is empty!");
+
     for (size_t i = 0; i < cdf.size(); i++)
         cdf[i] /= sum;
 
-- 
2.43.0


From 03be36b3caaffd52dfc89b070afaebc8d07b0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:23 +0000
Subject: [PATCH 88/89] fix: Minuit keeps the earlier result whole when the
 memory runs out while the new one is stored

---
 src/optimise/Minuit.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index 9c56784..2993a69 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -217,17 +217,20 @@ Minuit::Optimise(TestStatistic *testStat_)
     // defaults are same as ROOT defaults
     ROOT::Minuit2::FunctionMinimum fnMin = fMinimiser->operator()(fMaxCalls, fTolerance);
 
-    fFitResult.SetBestFit(ContainerTools::CreateMap(fParameterNames, fMinimiser->Params()));
-    fFitResult.SetValid(fnMin.IsValid());
+    // kept all at once: running out of memory must not leave parts of two fits
+    FitResult result(fFitResult);
+    result.SetBestFit(ContainerTools::CreateMap(fParameterNames, fMinimiser->Params()));
+    result.SetValid(fnMin.IsValid());
 
     if (fMaximising)
-        fFitResult.SetExtremeVal(-fnMin.Fval());
+        result.SetExtremeVal(-fnMin.Fval());
     else
-        fFitResult.SetExtremeVal(fnMin.Fval());
+        result.SetExtremeVal(fnMin.Fval());
 
     DenseMatrix covarianceMatrix = CalcCovarianceMatrix(fnMin);
 
-    fFitResult.SetCovarianceMatrix(covarianceMatrix);
+    result.SetCovarianceMatrix(covarianceMatrix);
+    fFitResult = result;
 
     return fFitResult;
 }
-- 
2.43.0


From eb5ff28ad114c689a0031c27c52b367ed597fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:35 +0000
Subject: [PATCH 89/89] fix: FitResult keeps the earlier best fit whole when
 the memory runs out while a new one is set

---
 src/optimise/FitResult.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index b5831d0..39176b0 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -15,7 +15,8 @@ FitResult::~FitResult()
 
 void FitResult::SetBestFit(const ParameterDict &bestFit_)
 {
-    fBestFit = bestFit_;
+    ParameterDict copy(bestFit_);
+    fBestFit.swap(copy);
 }
 
 const ParameterDict &
-- 
2.43.0

