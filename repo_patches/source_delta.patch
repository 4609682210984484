From 083fe805bc0cddc738e1b238762fe26ce9547d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 01/28] fix: operation queue: pause, cancel and finish signals
 could be lost, cancel deadlocked, queue forgot cancellation and failures

---
 pwned-lib/operation.cpp      | 33 ++++++++------
 pwned-lib/operation.hpp      | 16 +++++++
 pwned-lib/operationqueue.hpp | 86 ++++++++++++++++++++++++++++++------
 3 files changed, 109 insertions(+), 26 deletions(-)

diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 8b2af05..a7c6b97 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -60,27 +60,34 @@ void Operation::wait() noexcept(false)
 
 void Operation::start() noexcept
 {
-  if (isCancelled)
-    return;
-  isRunning = true;
-  isPaused = false;
-  try
+  if (!isCancelled)
   {
-    execute();
+    isRunning = true;
+    try
+    {
+      execute();
+    }
+    catch (const std::exception &e)
+    {
+      isFailed = true;
+      std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
+    }
+    isRunning = false;
   }
-  catch (OperationException &e)
-  {
-    std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
-  }
-  isRunning = false;
+  std::lock_guard<std::mutex> lock(mtx);
   isFinished = true;
-  finishedCondition.notify_one();
+  finishedCondition.notify_all();
 }
 
 void Operation::waitForFinished()
 {
   std::unique_lock<std::mutex> lock(mtx);
-  finishedCondition.wait(lock);
+  finishedCondition.wait(lock, [this] { return isFinished.load(); });
+}
+
+void Operation::requestCancel() noexcept
+{
+  isCancelled = true;
 }
 
 void Operation::cancel()
diff --git a/pwned-lib/operation.hpp b/pwned-lib/operation.hpp
index e318343..5525a36 100755
--- a/pwned-lib/operation.hpp
+++ b/pwned-lib/operation.hpp
@@ -40,6 +40,7 @@ protected:
   std::atomic<bool> isFinished{false};
   std::atomic<bool> isCancelled{false};
   std::atomic<bool> isPaused{false};
+  std::atomic<bool> isFailed{false};
   std::mutex mtx;
   std::condition_variable finishedCondition;
   OperationQueue<Operation> *queue{nullptr};
@@ -61,12 +62,27 @@ public:
          */
   void pause() noexcept;
 
+  /**
+         * Description: Returns `true` if `execute()` has ended with an exception.
+         * Parameters: none
+         */
+  inline bool hasFailed() const noexcept
+  {
+    return isFailed;
+  }
+
   /**
          * Description: Starts the operation by calling the abstract method `execute()`.
          * Parameters: none
          */
   virtual void start() noexcept;
 
+  /**
+         * Description: Signals the operation to cancel by setting `isCancelled` to `true`, but doesn't wait for it to finish.
+         * Parameters: none
+         */
+  void requestCancel() noexcept;
+
   /**
          * Description: Signals the operation by setting `isCancelled` to `true`, then waits for all operations (pending and scheduled) to finish by calling `waitForFinished()`.
          * Parameters: none
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index d85d409..c71158c 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -18,6 +18,7 @@
 #ifndef __operationqueue_hpp__
 #define __operationqueue_hpp__
 
+#include <atomic>
 #include <thread>
 #include <pthread.h>
 #include <mutex>
@@ -57,10 +58,25 @@ class OperationQueue
   std::mutex pauseMtx;
   Semaphore guard{std::thread::hardware_concurrency()};
   int threadPriority;
-  bool _isRunning{false};
-  bool _isCancelled{false};
+  std::atomic<bool> _isRunning{false};
+  std::atomic<bool> _isCancelled{false};
+  std::atomic<bool> _hasFailed{false};
+  bool _isPaused{false};
   std::condition_variable pauseCondition;
 
+  bool isPaused()
+  {
+    std::lock_guard<std::mutex> lock(pauseMtx);
+    return _isPaused;
+  }
+
+  void setPaused(bool paused)
+  {
+    std::lock_guard<std::mutex> lock(pauseMtx);
+    _isPaused = paused;
+    pauseCondition.notify_all();
+  }
+
 public:
   explicit OperationQueue(int threadPriority = 0)
       : threadPriority(threadPriority)
@@ -73,12 +89,18 @@ public:
     return unscheduledOps.size() + runningOps.size();
   }
 
+  bool hasUnscheduled() const
+  {
+    std::lock_guard<std::mutex> lock(mtx);
+    return !unscheduledOps.empty();
+  }
+
   void reset()
   {
     cancel();
-    opThreads.clear();
-    _isRunning = false;
+    waitForFinished();
     _isCancelled = false;
+    _hasFailed = false;
   }
 
   inline bool isRunning() const
@@ -91,37 +113,48 @@ public:
     return _isCancelled;
   }
 
+  /**
+     * Description: Returns `true` if at least one of the operations has ended with an error.
+     * Parameters: none
+     */
+  inline bool hasFailed() const
+  {
+    return _hasFailed;
+  }
+
   void operationWait()
   {
     //std::cout << "operationWait()" << std::endl;
     std::unique_lock<std::mutex> lock(pauseMtx);
-    pauseCondition.wait(lock);
+    pauseCondition.wait(lock, [this] { return !_isPaused; });
     //std::cout << "operationWait() resuming ... " << std::endl;
   }
 
   void pause()
   {
+    std::lock_guard<std::mutex> lock(mtx);
     if (_isCancelled)
       return;
     if (_isRunning)
     {
+      setPaused(true);
       for (Operation *op : runningOps)
       {
         op->pause();
       }
-      std::lock_guard<std::mutex> lock(mtx);
       _isRunning = false;
     }
   }
 
   void resume()
   {
+    std::lock_guard<std::mutex> lock(mtx);
     if (_isCancelled)
       return;
-    if (!_isRunning)
+    if (!_isRunning && isPaused())
     {
       // std::cout << "OperationQueue::resume() notifying all ..." << std::endl;
-      pauseCondition.notify_all();
+      setPaused(false);
       _isRunning = true;
     }
   }
@@ -131,13 +164,17 @@ public:
     std::lock_guard<std::mutex> lock(mtx);
     _isCancelled = true;
     for (Operation *op : runningOps)
+    {
+      op->requestCancel();
+    }
+    setPaused(false);
+    for (Operation *op : runningOps)
     {
       op->cancel();
     }
     while (!unscheduledOps.empty())
     {
       Operation *op = unscheduledOps.top();
-      op->cancel();
       delete op;
       unscheduledOps.pop();
     }
@@ -163,18 +200,35 @@ public:
     int policy;
     int rc = pthread_getschedparam(pthread_self(), &policy, &param);
     int parentPriority = (rc == 0) ? param.sched_priority : 0;
+    _isRunning = true;
     exeThread = runAsync([this] {
-      while (!unscheduledOps.empty())
+      while (hasUnscheduled())
       {
         if (_isCancelled)
           break;
         guard.wait();
         mtx.lock();
+        while (isPaused())
+        {
+          mtx.unlock();
+          operationWait();
+          mtx.lock();
+        }
+        if (_isCancelled || unscheduledOps.empty())
+        {
+          mtx.unlock();
+          guard.notify();
+          break;
+        }
         T *const op = unscheduledOps.top();
         unscheduledOps.pop();
         runningOps.push_back(op);
         opThreads.push_back(runAsync([op, this]() {
           op->start();
+          if (op->hasFailed())
+          {
+            _hasFailed = true;
+          }
           finished(op);
           guard.notify();
         },
@@ -183,7 +237,6 @@ public:
       }
     },
                          parentPriority);
-    _isRunning = true;
     if (_waitForScheduled)
     {
       waitForScheduled();
@@ -192,16 +245,23 @@ public:
 
   void waitForScheduled()
   {
-    exeThread.join();
+    if (exeThread.joinable())
+    {
+      exeThread.join();
+    }
   }
 
   void waitForFinished()
   {
+    waitForScheduled();
     for (auto &thread : opThreads)
     {
       thread.join();
     }
-    reset();
+    opThreads.clear();
+    std::lock_guard<std::mutex> lock(mtx);
+    _isRunning = false;
+    setPaused(false);
   }
 };
 } // namespace pwned
-- 
2.43.0


From 66cf4d83e22c9f53e14af84824c12ff09f68af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 02/28] fix: converter: read and write errors went unnoticed,
 colliding output names, endless loop without memory, terminal changed and
 queue used after main's end

---
 pwned-converter-cli/convertoperation.cpp    | 58 ++++++++++++++++-----
 pwned-converter-cli/pwned-converter-cli.cpp | 15 ++++--
 pwned-lib/userpasswordreader.cpp            |  6 +--
 3 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 7213788..192b7e7 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -15,8 +15,10 @@
  along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <map>
+#include <mutex>
 
 #include <boost/filesystem.hpp>
 
@@ -28,6 +30,14 @@
 
 namespace fs = boost::filesystem;
 
+enum ConverterError
+{
+  cannotReadFromFile,
+  cannotWriteToFile
+};
+
+static std::mutex dstMtx;
+
 class ConvertOperationPrivate
 {
 public:
@@ -39,7 +49,7 @@ public:
       : srcFilePath(srcFilename)
       , dstPath(dstDirectory)
       , outputExt(outputExt)
-      , maxMem(maxMem)
+      , maxMem(std::max<uint64_t>(maxMem, 1))
       , options(options)
   {
     inputFile.open(srcFilename, std::ios::binary);
@@ -79,11 +89,15 @@ void ConvertOperation::execute() noexcept(false)
            << std::endl;
     std::cout << output.str();
   }
+  if (!d->inputFile.is_open())
+  {
+    throw pwned::OperationException("Cannot open " + d->srcFilePath.string(), cannotReadFromFile);
+  }
   pwned::UserPasswordReader reader(d->inputFile, d->options);
   static const uint64_t estimatedMemoryOverheadPerEntry = sizeof(uintptr_t);
   static const uint64_t memUsagePerEntry = sizeof(pwned::Hash) + sizeof(uint32_t) + sizeof(pwned::PasswordHashAndCount) + estimatedMemoryOverheadPerEntry;
   int splitFileNum = 0;
-  while (!reader.eof())
+  while (!reader.eof() && !reader.bad())
   {
     uint64_t memUsage = 0;
     ++splitFileNum;
@@ -98,16 +112,18 @@ void ConvertOperation::execute() noexcept(false)
       memUsage += memUsagePerEntry;
       if (isPaused)
       {
-        queue->operationWait();
         isPaused = false;
+        queue->operationWait();
       }
     }
+    if (reader.bad())
+      break;
     if (isCancelled)
       return;
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
     if (passwordCountSet.empty())
     {
@@ -129,16 +145,16 @@ void ConvertOperation::execute() noexcept(false)
       return;
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
     std::sort(passwordList.begin(), passwordList.end(), pwned::PasswordHashAndCountLess());
     if (isCancelled)
       return;
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
 
     const fs::path srcFilename = d->srcFilePath.stem();
@@ -147,9 +163,11 @@ void ConvertOperation::execute() noexcept(false)
       return (d->dstPath / (srcFilename.string() + pwned::string_format("-%04x", splitFileNum))).string();
     };
 
+    // no two operations may choose the same name
+    std::unique_lock<std::mutex> dstLock(dstMtx);
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
     int n = splitFileNum;
-    while (fs::exists(dstFilePath) && n < 10000)
+    while (fs::exists(dstFilePath))
     {
       dstFilePath = generatedOutputFilename() + pwned::string_format("-%04x", n) + d->outputExt.string();
       ++n;
@@ -160,18 +178,30 @@ void ConvertOperation::execute() noexcept(false)
       std::cout << output.str();
     }
     std::ofstream f(dstFilePath.string(), std::ios::binary);
-    if (f.is_open())
+    dstLock.unlock();
+    if (!f.is_open())
     {
-      for (const auto &phc : passwordList)
-      {
-        phc.dump(f);
-      }
-      f.close();
+      throw pwned::OperationException("Cannot write to " + dstFilePath.string(), cannotWriteToFile);
+    }
+    for (const auto &phc : passwordList)
+    {
+      phc.dump(f);
+    }
+    f.close();
+    if (f.fail())
+    {
+      boost::system::error_code ec;
+      fs::remove(dstFilePath, ec);
+      throw pwned::OperationException("Cannot write to " + dstFilePath.string(), cannotWriteToFile);
     }
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
   }
+  if (reader.bad())
+  {
+    throw pwned::OperationException("Cannot read from " + d->srcFilePath.string(), cannotReadFromFile);
+  }
 }
diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index e41064e..817778b 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -20,6 +20,7 @@
 #include <iomanip>
 #include <string>
 #include <map>
+#include <memory>
 #include <vector>
 #include <thread>
 #include <chrono>
@@ -165,7 +166,9 @@ int main(int argc, const char *argv[])
             << std::endl;
   auto t0 = std::chrono::high_resolution_clock::now();
   std::cout << "Preparing queue ..." << std::endl;
-  pwned::OperationQueue<ConvertOperation> opQueue;
+  // shared with the key thread which may outlive this function
+  const auto opQueuePtr = std::make_shared<pwned::OperationQueue<ConvertOperation>>();
+  pwned::OperationQueue<ConvertOperation> &opQueue = *opQueuePtr;
   for (const auto &filename : filenames)
   {
     ConvertOperation *op = new ConvertOperation(filename,
@@ -176,8 +179,9 @@ int main(int argc, const char *argv[])
     opQueue.add(op);
   }
   pwned::TermIO termIO;
-  std::thread keyThread = pwned::runAsync([&opQueue, &termIO] {
-    termIO.disableEcho();
+  termIO.disableEcho();
+  std::thread keyThread = pwned::runAsync([opQueuePtr] {
+    pwned::OperationQueue<ConvertOperation> &opQueue = *opQueuePtr;
     char ch;
     do
     {
@@ -219,5 +223,10 @@ int main(int argc, const char *argv[])
     std::cout << "Total time: " << pwned::readableTime(time_span.count()) << std::endl
               << std::endl;
   }
+  if (opQueue.hasFailed())
+  {
+    std::cerr << "ERROR: not all files have been converted." << std::endl;
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index 4de23fc..cde4101 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -78,7 +78,7 @@ char UserPasswordReader::guessSeparator()
       guessedSeparator = maxSep->first;
     }
   }
-  input.clear();
+  input.clear(input.rdstate() & std::ios::badbit); // a read error must not get lost
   input.seekg(0, std::ios::beg);
   return guessedSeparator;
 }
@@ -102,7 +102,7 @@ bool UserPasswordReader::checkForMD5Hashes()
       }
     }
   }
-  input.clear();
+  input.clear(input.rdstate() & std::ios::badbit); // a read error must not get lost
   input.seekg(0, std::ios::beg);
   return forceEvaluateMD5Hashes;
 }
@@ -127,7 +127,7 @@ bool UserPasswordReader::checkForHexEncodedPasswords()
       }
     }
   }
-  input.clear();
+  input.clear(input.rdstate() & std::ios::badbit); // a read error must not get lost
   input.seekg(0, std::ios::beg);
   return forceEvaluateHexEncodedPasswords;
 }
-- 
2.43.0


From f4ece16f0ac11ec30c2f60681fb530344a5390da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 03/28] fix: merger: counts were doubled or lost, read and
 write errors went unnoticed, incomplete results stayed

---
 pwned-merger-cli/mergeoperation.cpp   | 84 ++++++++++++++++-----------
 pwned-merger-cli/mergerinput.hpp      |  5 ++
 pwned-merger-cli/progressbar.hpp      |  2 +
 pwned-merger-cli/pwned-merger-cli.cpp | 32 ++++++++--
 4 files changed, 84 insertions(+), 39 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index eb1887c..7c111ad 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -49,6 +49,7 @@ enum MergerError
 {
   noData,
   cannotWriteToFile,
+  cannotReadFromFile,
   cancelled
 };
 
@@ -62,6 +63,7 @@ public:
   bool removeInputFilesAfterMerge;
   ProgressCallback *progressed;
   uint64_t totalEntries;
+  bool readFailed{false};
 
   MergeOperationPrivate(const std::vector<InputFile> &srcFiles,
                         const std::string &dstFilename,
@@ -77,8 +79,16 @@ public:
     {
       MergerInput *mi = new MergerInput(file);
       mi->open();
-      pq.push(mi);
       sum += mi->inputSize.value();
+      if (mi->isValid)
+      {
+        pq.push(mi);
+      }
+      else
+      {
+        readFailed = readFailed || mi->hasFailed();
+        delete mi;
+      }
     }
     totalEntries = sum / pwned::PasswordHashAndCount::size;
   }
@@ -110,9 +120,9 @@ void MergeOperation::execute() noexcept(false)
   if (isCancelled)
     return;
   auto t0 = std::chrono::high_resolution_clock::now();
-  if (d->pq.empty())
+  if (d->readFailed)
   {
-    return;
+    throw pwned::OperationException("Cannot read from input file", MergerError::cannotReadFromFile);
   }
   {
     std::ostringstream output;
@@ -128,40 +138,55 @@ void MergeOperation::execute() noexcept(false)
     throw pwned::OperationException(std::string("Cannot write to file: ") + std::strerror(errno), MergerError::cannotWriteToFile);
     return;
   }
-  pwned::PasswordHashAndCount current = d->pq.top()->phc;
+  pwned::PasswordHashAndCount current;
   uint64_t updateAfterEntries = std::max<uint64_t>(d->totalEntries / 1000, 1);
-  while (!isCancelled)
+  while (!isCancelled && !d->pq.empty() && !d->readFailed)
   {
     const pwned::PasswordHashAndCount &p = next();
-    if (!d->pq.empty())
+    if (d->progressed != nullptr && d->entriesProcessed % updateAfterEntries == 0)
     {
-      if (d->progressed != nullptr && d->entriesProcessed % updateAfterEntries == 0)
-      {
-        (*d->progressed)(d->entriesProcessed);
-      }
-      ++d->entriesProcessed;
-      if (current.hash == p.hash)
-      {
-        current.count += p.count;
-      }
-      else
-      {
-        current.dump(d->dstFile);
-        current = p;
-      }
+      (*d->progressed)(d->entriesProcessed);
+    }
+    if (d->entriesProcessed == 0)
+    {
+      current = p;
+    }
+    else if (current.hash == p.hash)
+    {
+      current.count += p.count;
     }
     else
     {
       current.dump(d->dstFile);
-      break;
+      current = p;
     }
+    ++d->entriesProcessed;
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
   }
+  if (d->entriesProcessed > 0)
+  {
+    current.dump(d->dstFile);
+  }
   d->dstFile.close();
+  if (isCancelled || d->readFailed || d->dstFile.fail())
+  {
+    // an incomplete file must not stay
+    boost::system::error_code ec;
+    fs::remove(d->dstFilePath, ec);
+    if (d->readFailed)
+    {
+      throw pwned::OperationException("Cannot read from input file", MergerError::cannotReadFromFile);
+    }
+    if (d->dstFile.fail())
+    {
+      throw pwned::OperationException("Cannot write to " + d->dstFilePath.string(), MergerError::cannotWriteToFile);
+    }
+    return;
+  }
   if (d->progressed != nullptr)
   {
     (*d->progressed)(d->entriesProcessed);
@@ -177,28 +202,21 @@ pwned::PasswordHashAndCount MergeOperation::next()
   if (!d->pq.empty())
   {
     MergerInput *mergerInput = d->pq.top();
+    d->pq.pop();
     result = mergerInput->phc;
+    mergerInput->read();
     if (mergerInput->isValid)
     {
-      mergerInput->read();
-      if (mergerInput->isValid)
-      {
-        d->pq.pop();
-        d->pq.push(mergerInput);
-      }
+      d->pq.push(mergerInput);
     }
     else
     {
-      d->pq.pop();
+      d->readFailed = mergerInput->hasFailed();
       if (d->removeInputFilesAfterMerge)
       {
         mergerInput->deleteFile();
       }
       delete mergerInput;
-      if (d->pq.empty())
-      {
-        return pwned::PasswordHashAndCount();
-      }
     }
   }
   return result;
diff --git a/pwned-merger-cli/mergerinput.hpp b/pwned-merger-cli/mergerinput.hpp
index 2ad6dfc..4d33a04 100755
--- a/pwned-merger-cli/mergerinput.hpp
+++ b/pwned-merger-cli/mergerinput.hpp
@@ -57,6 +57,11 @@ public:
     return isValid;
   }
 
+  inline bool hasFailed() const
+  {
+    return !f.is_open() || f.bad();
+  }
+
   void deleteFile()
   {
     boost::filesystem::remove(path);
diff --git a/pwned-merger-cli/progressbar.hpp b/pwned-merger-cli/progressbar.hpp
index f1804af..e86c03f 100755
--- a/pwned-merger-cli/progressbar.hpp
+++ b/pwned-merger-cli/progressbar.hpp
@@ -61,6 +61,8 @@ public:
 
   void update(uint64_t value) override
   {
+    if (hi == 0)
+      return;
     std::cout << '\r' << begin;
     const int w = int(uint64_t(width) * value / hi);
     for (int i = 0; i < w; ++i)
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 9d221cd..5fdcffe 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -19,6 +19,7 @@
 #include <iomanip>
 #include <string>
 #include <map>
+#include <memory>
 #include <vector>
 #include <iterator>
 #include <thread>
@@ -132,6 +133,11 @@ int main(int argc, const char *argv[])
     for (auto &&f : fileTreeIterator)
     {
       const std::string &filePath = f.path().string();
+      boost::system::error_code ec;
+      if (!dstFile.empty() && fs::equivalent(f.path(), dstFile, ec))
+      {
+        continue; // the result of an earlier merge isn't an input
+      }
       if (ba::ends_with(filePath, inputExt) && fs::is_regular_file(f) && fs::file_size(filePath) > 0)
       {
         filenames.push_back(filePath);
@@ -144,11 +150,16 @@ int main(int argc, const char *argv[])
     usage();
     return EXIT_FAILURE;
   }
+  if (maxFilesAtOnce < 2)
+  {
+    std::cerr << "ERROR: at least 2 files must be processed at once." << std::endl;
+    return EXIT_FAILURE;
+  }
   if (fs::exists(dstFile))
   {
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
               << "Do you want to overwrite it? (y/n)" << std::endl;
-    char ch;
+    char ch{'n'};
     std::cin >> ch;
     if (ch != 'y')
     {
@@ -177,8 +188,11 @@ int main(int argc, const char *argv[])
   std::sort(inputFiles.begin(), inputFiles.end(), merger::InputFileLess);
   std::vector<std::string> intermediateFilenames;
   ProgressBar progressBar(32);
-  pwned::OperationQueue<merger::MergeOperation> opQueue;
-  std::thread keyThread = pwned::runAsync([&opQueue] {
+  // shared with the key thread which may outlive this function
+  const auto opQueuePtr = std::make_shared<pwned::OperationQueue<merger::MergeOperation>>();
+  pwned::OperationQueue<merger::MergeOperation> &opQueue = *opQueuePtr;
+  std::thread keyThread = pwned::runAsync([opQueuePtr] {
+    pwned::OperationQueue<merger::MergeOperation> &opQueue = *opQueuePtr;
     char ch;
     do
     {
@@ -206,7 +220,7 @@ int main(int argc, const char *argv[])
   },
                                           0);
   keyThread.detach();
-  while (inputFiles.size() > 0 && !opQueue.isCancelled())
+  while (inputFiles.size() > 0 && !opQueue.isCancelled() && !opQueue.hasFailed())
   {
     const auto b = std::min(inputFiles.end(), inputFiles.begin() + maxFilesAtOnce);
     const std::vector<merger::InputFile> inputFileSlice(inputFiles.begin(), b);
@@ -229,7 +243,7 @@ int main(int argc, const char *argv[])
     opQueue.add(op);
     opQueue.execute(true);
     opQueue.waitForFinished();
-    if (!opQueue.isCancelled())
+    if (!opQueue.isCancelled() && !opQueue.hasFailed())
     {
       inputFiles = std::vector<merger::InputFile>(b, inputFiles.end());
       if (!isLastChunk)
@@ -247,7 +261,13 @@ int main(int argc, const char *argv[])
   }
   for (const auto &intermediateFile : intermediateFilenames)
   {
-    fs::remove(intermediateFile);
+    boost::system::error_code ec;
+    fs::remove(intermediateFile, ec);
+  }
+  if (opQueue.hasFailed())
+  {
+    std::cerr << "ERROR: the files have not been merged." << std::endl;
+    return EXIT_FAILURE;
   }
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From 436c2cc0a502f3d709efe4d21481209d909d3d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 04/28] fix: index: last record's bucket got a wrong position,
 short files and bad arguments crashed or hung, failed or killed runs left an
 incomplete index

---
 pwned-index/index.cpp | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index e40e8bf..7383236 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -120,40 +120,65 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  if (bits < 1 || bits >= sizeof(pwned::index_key_t) * 8)
+  {
+    std::cerr << "ERROR: invalid bit count of index key." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   const unsigned int shift = (unsigned int)(sizeof(pwned::index_key_t) * 8 - bits);
   const pwned::index_key_t maxIdx = pwned::index_key_t(1) + (std::numeric_limits<pwned::index_key_t>::max() >> shift);
 
   std::cout << "Scanning ..." << std::endl;
   std::ifstream input(inputFilename, std::ios::binary);
+  if (!input.is_open())
+  {
+    std::cerr << "ERROR: cannot open input file." << std::endl;
+    return EXIT_FAILURE;
+  }
   pwned::PasswordHashAndCount phc;
   pwned::index_key_t *indexes = new pwned::index_key_t[maxIdx];
   memset(indexes, 0xff, maxIdx * sizeof(pwned::index_key_t));
-  phc.read(input);
-  pwned::index_key_t lastIdx = pwned::index_key_t(phc.hash.quad.upper >> shift);
-  *(indexes + lastIdx) = 0;
+  pwned::index_key_t lastIdx = 0;
   pwned::index_key_t idx = 0;
   uint64_t pos = 0;
-  while (!input.eof())
+  while (phc.read(input))
   {
-    phc.read(input);
     idx = pwned::index_key_t(phc.hash.quad.upper >> shift);
-    if (idx > lastIdx)
+    if (idx > lastIdx || pos == 0)
     {
-      pos = uint64_t(input.tellg()) - pwned::PasswordHashAndCount::size;
       *(indexes + idx) = pos;
       std::cout << "\rMSB 0x" << std::hex << idx << " @ " << std::dec << pos << std::flush;
       lastIdx = idx;
     }
+    pos += pwned::PasswordHashAndCount::size;
+  }
+  if (input.bad())
+  {
+    std::cerr << "ERROR: cannot read from input file." << std::endl;
+    return EXIT_FAILURE;
   }
-  *(indexes + idx) = pos;
   input.close();
 
   std::cout << std::endl
             << "Writing ... " << std::flush;
-  std::ofstream output(outputFilename, std::ios::trunc | std::ios::binary);
+  // the index becomes visible under its name when it's complete
+  const std::string tmpFilename = outputFilename + ".tmp";
+  std::ofstream output(tmpFilename, std::ios::trunc | std::ios::binary);
   output.write((const char *)indexes, std::streamsize(maxIdx * sizeof(pwned::index_key_t)));
   output.close();
   delete[] indexes;
+  boost::system::error_code ec;
+  if (!output.fail())
+  {
+    fs::rename(tmpFilename, outputFilename, ec);
+  }
+  if (output.fail() || ec)
+  {
+    fs::remove(tmpFilename, ec);
+    std::cerr << "ERROR: cannot write index file." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << "Ready." << std::endl
             << std::endl;
 
-- 
2.43.0


From 5cbfe20b480a30aec21d3c5a9d9c792eef172829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 05/28] fix: lookup: search beyond the end, endless or wrong
 index scans, failed reads poisoned or falsified later lookups, dialogue never
 ended at end of input

---
 pwned-lib/hash.hpp                    |  1 +
 pwned-lib/passwordhashandcount.hpp    |  1 +
 pwned-lib/passwordinspector.cpp       | 57 ++++++++++++++++++++-------
 pwned-lib/passwordinspector.hpp       |  1 +
 pwned-lookup-cli/pwned-lookup-cli.cpp | 16 +++++++-
 5 files changed, 60 insertions(+), 16 deletions(-)

diff --git a/pwned-lib/hash.hpp b/pwned-lib/hash.hpp
index f391232..a478267 100755
--- a/pwned-lib/hash.hpp
+++ b/pwned-lib/hash.hpp
@@ -73,6 +73,7 @@ struct Hash
 
   inline bool read(std::istream &f, std::streamoff pos)
   {
+    f.clear(); // an earlier failure must not make all later reads fail
     f.seekg(pos);
     return read(f);
   }
diff --git a/pwned-lib/passwordhashandcount.hpp b/pwned-lib/passwordhashandcount.hpp
index c385a70..c10f06e 100755
--- a/pwned-lib/passwordhashandcount.hpp
+++ b/pwned-lib/passwordhashandcount.hpp
@@ -51,6 +51,7 @@ public:
 
   inline bool read(std::istream &f, std::streamoff pos)
   {
+    f.clear(); // an earlier failure must not make all later reads fail
     f.seekg(pos);
     return read(f);
   }
diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 4951469..df29d5d 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -18,6 +18,7 @@
 #include <iostream>
 #include <algorithm>
 #include <limits>
+#include <stdexcept>
 #include <cmath>
 
 #pragma GCC diagnostic push
@@ -65,7 +66,12 @@ bool PasswordInspector::open(const std::string &inputFilename, const std::string
   if (!indexFilename.empty())
   {
     const uint64_t nKeys = uint64_t(fs::file_size(indexFilename) / sizeof(index_key_t));
+    if (nKeys < 2 || popcnt64(nKeys) != 1)
+    {
+      return false; // not an index, so search without it
+    }
     mShift = (unsigned int)(sizeof(index_key_t) * 8 - popcnt64(nKeys - 1));
+    mIndexSize = int64_t(nKeys * sizeof(index_key_t));
     mIndexFile.open(indexFilename, std::ios::binary);
     ok = ok && mIndexFile.is_open();
   }
@@ -81,35 +87,52 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
 {
   int nReads = 0;
   std::streamoff lo = 0;
-  std::streamoff hi = mFileSize;
+  std::streamoff hi = mFileSize - (std::streamoff)PasswordHashAndCount::size;
+  PasswordHashAndCount phc;
   if (mIndexFile.is_open())
   {
     const uint64_t hashMSB = hash.quad.upper >> mShift;
     const std::streamoff idx = (std::streamoff)(hashMSB * sizeof(index_key_t));
-    std::streamoff loIdx = idx;
-    do {
-      mIndexFile.seekg(loIdx);
-      mIndexFile.read(reinterpret_cast<char*>(&lo), sizeof(index_key_t));
+    const auto readKey = [this, &nReads]() {
+      index_key_t key{0};
+      mIndexFile.read(reinterpret_cast<char*>(&key), sizeof(index_key_t));
+      if (mIndexFile.gcount() != sizeof(index_key_t))
+      {
+        throw std::runtime_error("Cannot read from index file");
+      }
       ++nReads;
-      loIdx -= sizeof(index_key_t);
+      return key;
+    };
+    mIndexFile.clear();
+    mIndexFile.seekg(idx);
+    lo = (std::streamoff)readKey();
+    if (lo == int64_t(std::numeric_limits<index_key_t>::max()))
+    {
+      // there's no hash with these most significant bits
+      safe_assign(readCount, nReads);
+      return phc;
     }
-    while (lo == int64_t(std::numeric_limits<index_key_t>::max()));
     std::streamoff hiIdx = idx + (std::streamoff)sizeof(index_key_t);
-    do {
-      mIndexFile.seekg(hiIdx);
-      mIndexFile.read(reinterpret_cast<char*>(&hi), sizeof(index_key_t));
-      ++nReads;
-      hiIdx += sizeof(index_key_t);
+    while (hiIdx < mIndexSize)
+    {
+      const index_key_t key = readKey();
+      if (key != std::numeric_limits<index_key_t>::max())
+      {
+        hi = (std::streamoff)key - (std::streamoff)PasswordHashAndCount::size;
+        break;
+      }
+      hiIdx += (std::streamoff)sizeof(index_key_t);
     }
-    while (hi == int64_t(std::numeric_limits<index_key_t>::max()));
   }
-  PasswordHashAndCount phc;
   while (lo <= hi)
   {
     std::streamoff pos = std::streamoff((uint64_t(lo) + uint64_t(hi)) / 2);
     pos -= pos % std::streamoff(PasswordHashAndCount::size);
     pos = std::max<int64_t>(0, pos);
-    phc.read(mInputFile, pos);
+    if (!phc.read(mInputFile, pos))
+    {
+      throw std::runtime_error("Cannot read from input file");
+    }
     ++nReads;
     if (hash > phc.hash)
     {
@@ -134,6 +157,10 @@ PasswordHashAndCount PasswordInspector::smart_binsearch(const Hash &hash, int *r
 {
   static constexpr float MaxUInt64 = float(std::numeric_limits<uint64_t>::max());
   int nReads = 0;
+  if (mFileSize < int64_t(PasswordHashAndCount::size))
+  {
+    return binsearch(hash, readCount);
+  }
   static constexpr int64_t OffsetMultiplicator = 2;
   std::streamoff potentialHitIdx = std::llround(float(mFileSize) * float(hash.quad.upper) / MaxUInt64);
   potentialHitIdx -= potentialHitIdx % (std::streamoff)PasswordHashAndCount::size;
diff --git a/pwned-lib/passwordinspector.hpp b/pwned-lib/passwordinspector.hpp
index 78b64ce..9cb5128 100755
--- a/pwned-lib/passwordinspector.hpp
+++ b/pwned-lib/passwordinspector.hpp
@@ -33,6 +33,7 @@ private:
   std::ifstream mInputFile;
   std::ifstream mIndexFile;
   int64_t mFileSize{0};
+  int64_t mIndexSize{0};
   unsigned int mShift{0};
   PasswordHashAndCount mPHC;
 
diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 5727bed..8786644 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -89,6 +89,7 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
   pwned::PasswordInspector inspector(inputFilename, indexFilename);
+  pwned::TermIO termIO; // restores the terminal settings at the end
   for (;;)
   {
     std::cout << "Password? ";
@@ -96,10 +97,23 @@ int main(int argc, const char *argv[])
     pwned::setStdinEcho(false);
     std::cin >> pwd;
     pwned::setStdinEcho(true);
+    if (!std::cin)
+    {
+      break;
+    }
     const pwned::Hash soughtHash(pwd);
     std::cout << "MD5 hash " << soughtHash << std::endl;
     const auto &t0 = std::chrono::high_resolution_clock::now();
-    const pwned::PasswordHashAndCount &phc = inspector.binsearch(soughtHash);
+    pwned::PasswordHashAndCount phc;
+    try
+    {
+      phc = inspector.binsearch(soughtHash);
+    }
+    catch (const std::exception &e)
+    {
+      std::cerr << "ERROR: " << e.what() << std::endl;
+      continue;
+    }
     const auto &t1 = std::chrono::high_resolution_clock::now();
     std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
     if (phc.count > 0)
-- 
2.43.0


From bad6fe415f4cd0766e226ab315f858ebf18cb119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 06/28] fix: server: does not compile with current Boost

---
 pwned-server/httpworker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index c11c864..9569fcf 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -142,13 +142,13 @@ void makeResponse(boost::optional<http::response<http::string_body>> &response,
 void HttpWorker::sendResponse(http::request<http::string_body> const &req)
 {
   URI uri;
-  uri.parseTarget(req.target().to_string());
+  uri.parseTarget(std::string(req.target()));
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
     ss << std::chrono::system_clock::now() << ' '
        << mSocket.remote_endpoint().address().to_string() << ' '
-       << req.target().to_string();
+       << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
   if (uri.path() == (mBasePath + "/lookup") && uri.query().find("hash") != uri.query().end())
-- 
2.43.0


From ff565f4b46d7168dcd752a35f81215ca63f46031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 07/28] fix: server: a vanished client or failed read ended the
 service, timeouts hit other connections, handlers of a worker raced

---
 pwned-server/httpworker.cpp | 37 ++++++++++++++++++++++++-------------
 pwned-server/httpworker.hpp |  5 +++--
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 9569fcf..9761154 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -21,6 +21,7 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/algorithm/string/replace.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/asio/bind_executor.hpp>
 
 #include <pwned-lib/hash.hpp>
 
@@ -62,9 +63,10 @@ void HttpWorker::accept()
   beast::error_code ec;
   mSocket.close(ec);
   mBuffer.consume(mBuffer.size());
+  mReqTimeout.expires_at(std::chrono::steady_clock::time_point::max()); // must not hit the next connection
   mAcceptor.async_accept(
       mSocket,
-      [this](beast::error_code ec) {
+      net::bind_executor(mSocket.get_executor(), [this](beast::error_code ec) {
         if (ec)
         {
           accept();
@@ -74,7 +76,7 @@ void HttpWorker::accept()
           mReqTimeout.expires_after(Timeout);
           readRequest();
         }
-      });
+      }));
 }
 
 void HttpWorker::readRequest()
@@ -98,16 +100,23 @@ void HttpWorker::readRequest()
 
 void HttpWorker::processRequest(http::request<http::string_body> const &req)
 {
-  switch (req.method())
+  try
+  {
+    switch (req.method())
+    {
+    case http::verb::get:
+      sendResponse(req);
+      break;
+    default:
+      sendBadResponse(
+          http::status::bad_request,
+          "Invalid request method '" + std::string(req.method_string()) + "'\r\n");
+      break;
+    }
+  }
+  catch (const std::exception &e)
   {
-  case http::verb::get:
-    sendResponse(req);
-    break;
-  default:
-    sendBadResponse(
-        http::status::bad_request,
-        "Invalid request method '" + std::string(req.method_string()) + "'\r\n");
-    break;
+    sendBadResponse(http::status::internal_server_error, std::string(e.what()) + "\r\n");
   }
 }
 
@@ -146,8 +155,9 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
+    beast::error_code ec; // the client may be gone already
     ss << std::chrono::system_clock::now() << ' '
-       << mSocket.remote_endpoint().address().to_string() << ' '
+       << mSocket.remote_endpoint(ec).address().to_string() << ' '
        << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
@@ -231,7 +241,8 @@ void HttpWorker::checkTimeout()
 {
   if (mReqTimeout.expiry() <= std::chrono::steady_clock::now())
   {
-    mSocket.close();
+    beast::error_code ec;
+    mSocket.close(ec);
     mReqTimeout.expires_at(std::chrono::steady_clock::time_point::max());
   }
   mReqTimeout.async_wait(
diff --git a/pwned-server/httpworker.hpp b/pwned-server/httpworker.hpp
index 49d78c0..3262b89 100644
--- a/pwned-server/httpworker.hpp
+++ b/pwned-server/httpworker.hpp
@@ -25,6 +25,7 @@
 #include <boost/beast/core.hpp>
 #include <boost/beast/http.hpp>
 #include <boost/asio/ip/tcp.hpp>
+#include <boost/asio/strand.hpp>
 #include <boost/optional/optional.hpp>
 #include <boost/function.hpp>
 
@@ -55,11 +56,11 @@ public:
 
 private:
   tcp::acceptor &mAcceptor;
-  tcp::socket mSocket{mAcceptor.get_executor()};
+  tcp::socket mSocket{boost::asio::make_strand(mAcceptor.get_executor())}; // all handlers of a worker run one after another
   beast::flat_buffer mBuffer;
   boost::optional<http::request_parser<http::string_body>> mParser;
   boost::asio::basic_waitable_timer<std::chrono::steady_clock> mReqTimeout{
-    mAcceptor.get_executor(),
+    mSocket.get_executor(),
     (std::chrono::steady_clock::time_point::max)()};
   boost::optional<http::response<http::string_body>> mResponse;
   boost::optional<http::response_serializer<http::string_body>> mSerializer;
-- 
2.43.0


From 365612bea607f8e60705df14507aba408c9a6222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 08/28] fix: markov: damaged or unreadable model files were
 taken for complete ones, failed training reported success, unseen transitions
 threw

---
 .../pwned-markov-generator.cpp                | 14 +++++++++-
 .../pwned-markov-lookup.cpp                   |  8 +++++-
 pwned-lib/markovchain.hpp                     | 28 ++++++++++---------
 pwned-lib/markovnode.hpp                      |  3 +-
 4 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 51594f1..1b763ff 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -135,11 +135,13 @@ int main(int argc, char* argv[])
   if (!inputFile.is_open())
   {
     std::cerr << "Cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::ofstream outputFile(outputFilename, std::ios::trunc | std::ios::binary);
   if (!outputFile.is_open())
   {
     std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::vector<pwned::UserPasswordReaderOptions> readerOptions{pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords};
   pwned::UserPasswordReader reader(inputFile, readerOptions);
@@ -152,7 +154,7 @@ int main(int argc, char* argv[])
   {
     std::cout << "Reading from '" << inputFilename << "' (" << fileSize << " bytes) ..." << std::endl;
   }
-  while (!reader.eof())
+  while (!reader.eof() && !reader.bad())
   {
     const std::string &pwd = reader.nextPassword();
     bool ok = chain.train(pwd);
@@ -168,6 +170,11 @@ int main(int argc, char* argv[])
       ++n;
     }
   }
+  if (reader.bad())
+  {
+    std::cerr << "ERROR: cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   chain.update();
   if (verbosity.level > 0)
   {
@@ -176,5 +183,10 @@ int main(int argc, char* argv[])
   chain.saveBinary(outputFile);
   chain.writeJson(std::cout);
   outputFile.close();
+  if (!outputFile)
+  {
+    std::cerr << "ERROR: cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
diff --git a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
index 3382206..08fd48f 100644
--- a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
+++ b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
@@ -41,7 +41,13 @@ int main(int argc, char *argv[])
   const std::string &inputFilename = argv[1];
   std::ifstream inputFile(inputFilename, std::ios::binary);
   chain_type chain;
-  chain.loadBinary(inputFile);
+  const chain_type::ErrCode ec = chain.loadBinary(inputFile);
+  if (ec != chain_type::OK)
+  {
+    std::cerr << "ERROR: cannot load '" << inputFilename << "': " << chain.errString(ec) << std::endl;
+    return EXIT_FAILURE;
+  }
+  pwned::TermIO termIO; // restores the terminal settings at the end
   while (true)
   {
     std::cout << "Type password: " << std::flush;
diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 4299bf5..44b2b7f 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -166,8 +166,6 @@ public:
   }
   void saveBinary(std::ostream &os)
   {
-    if (mNodes.empty())
-      return;
     os.write(FileHeader, FileHeaderSize);
     write(os, FileVersion);
     write(os, (uint32_t)mFirstSymbolSortedProbs.size());
@@ -220,36 +218,36 @@ public:
     {
       char hdr[FileHeaderSize] = {0, 0, 0, 0};
       is.read(reinterpret_cast<char*>(hdr), FileHeaderSize);
-      if (is.eof())
+      if (!is)
         return BAD_HEADER_PREMATURE_EOF;
       if (memcmp(hdr, FileHeader, FileHeaderSize) != 0)
         return BAD_HEADER;
       uint8_t version = read<uint8_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_VERSION_PREMATURE_EOF;
       if (version != FileVersion)
         return BAD_VERSION;
       const uint32_t firstSymbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
       mFirstSymbolSortedProbs.reserve(firstSymbolCount);
       for (uint32_t i = 0; i < firstSymbolCount; ++i)
       {
         const symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         const prob_value_type p = read<prob_value_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_PROBABILITY_PREMATURE_EOF;
         mFirstSymbolSortedProbs.emplace_back(c, p);
       }
       const uint32_t symbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
       for (uint32_t i = 0; i < symbolCount; ++i)
       {
         symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         if (mNodes.find(c) == mNodes.end())
         {
@@ -260,21 +258,25 @@ public:
           return BAD_SYMBOL;
         }
         const uint32_t nodeCount = read<uint32_t>(is);
-        if (is.eof())
+        if (!is)
           return BAD_NODE_COUNT_PREMATURE_EOF;
         node_type &currentNode = mNodes[c];
         for (uint32_t j = 0; j < nodeCount; ++j)
         {
           const symbol_type symbol = read<symbol_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_SYMBOL_PREMATURE_EOF;
           const prob_value_type probability = read<prob_value_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_PROBABILITY_PREMATURE_EOF;
           currentNode.addSuccessor(symbol, probability);
         }
       }
     }
+    else
+    {
+      return BAD_HEADER;
+    }
     for (auto &node : mNodes)
     {
       node.second.postprocess();
@@ -343,7 +345,7 @@ private:
     "BAD_SYMBOL_PREMATURE_EOF",
     "BAD_PROBABILITY",
     "BAD_PROBABILITY_PREMATURE_EOF",
-    "BAD_NODE_COUNT"
+    "BAD_NODE_COUNT",
     "BAD_NODE_COUNT_PREMATURE_EOF"
   };
 };
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index f8b5d80..a8259b5 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -73,7 +73,8 @@ public:
   }
   inline prob_value_type probability(symbol_type c) const
   {
-    return mProbs.at(c);
+    const auto &prob = mProbs.find(c);
+    return prob != mProbs.cend() ? prob->second : prob_value_type(0);
   }
   inline count_type count(symbol_type c) const
   {
-- 
2.43.0


From 2b022b44cdf4bec1f2ac2a7f76e9a5498a8a8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 09/28] fix: password extractor: files were recorded as
 processed before their passwords were written, read and write errors went
 unnoticed

---
 .../pwned-password-extractor.cpp              | 36 ++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 1969d9f..e09fba2 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -193,6 +193,14 @@ int main(int argc, const char *argv[])
   }
   std::ios::openmode readyFileOpenMode = ignoreReady ? std::ios::trunc : std::ios::app;
   std::ofstream readyFile(".ready", readyFileOpenMode);
+  std::vector<std::string> processed; // files whose passwords have not reached the output file yet
+  const auto &markProcessed = [&processed, &readyFile]() {
+    for (const auto &filename : processed)
+    {
+      readyFile << filename << std::endl << std::flush;
+    }
+    processed.clear();
+  };
   std::cout << "Extracting passwords from ... " << std::endl;
   const std::vector<pwned::UserPasswordReaderOptions> readerOptions{pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords};
   for (const auto &inputFilename : inputFilenames)
@@ -210,7 +218,7 @@ int main(int argc, const char *argv[])
     }
     std::cout << inputFilename << std::flush;
     pwned::UserPasswordReader reader(inFile, readerOptions);
-    while (!reader.eof())
+    while (!reader.eof() && !reader.bad())
     {
       const std::string &pwd = reader.nextPassword().append("\n");
       if (!pwd.empty())
@@ -236,7 +244,23 @@ int main(int argc, const char *argv[])
 #endif
       }
     }
-    readyFile << inputFilename << std::endl << std::flush;
+    if (reader.bad())
+    {
+      std::cerr << "ERROR while reading from '" << inputFilename << "'." << std::endl;
+      return EXIT_FAILURE;
+    }
+    processed.push_back(inputFilename);
+#ifndef WITHOUT_BZ2
+    if (!compress)
+#endif
+    {
+      if (fflush(outFile) != 0 || ferror(outFile) != 0)
+      {
+        std::cerr << "ERROR while writing to '" << outputFilename << "'." << std::endl;
+        return EXIT_FAILURE;
+      }
+      markProcessed();
+    }
     inFile.close();
     std::cout << std::endl;
   }
@@ -248,14 +272,18 @@ int main(int argc, const char *argv[])
     if (bzError != BZ_OK)
     {
       std::cerr << "ERROR while closing BZ2 file." << std::endl;
-      BZ2_bzWriteClose(&bzError, bzFile, 0, nullptr, nullptr);
       fclose(outFile);
       return EXIT_FAILURE;
     }
   }
 #endif
 
-  fclose(outFile);
+  if (fclose(outFile) != 0)
+  {
+    std::cerr << "ERROR while writing to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
+  markProcessed();
 
   std::cout << std::endl
             << "Ready." << std::endl;
-- 
2.43.0


From 060a08f466297f905e502f39f81198b0f5b35475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 10/28] fix: be2le: wrote the last record twice, ignored read
 and write errors

---
 deprecated/be2le/be2le.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 74b3e15..738726e 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -38,13 +38,19 @@ int main(int argc, const char *argv[])
   if (in.is_open() && out.is_open())
   {
     pwned::PasswordHashAndCount phc;
-    while (!in.eof())
+    while (phc.read(in))
     {
-      phc.read(in);
       phc.hash.toHostByteOrder();
       phc.dump(out);
     }
   }
+  const bool complete = in.is_open() && in.eof() && in.gcount() == 0; // nothing but whole records
+  out.close();
+  if (!complete || !out)
+  {
+    std::cerr << "ERROR: conversion failed." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
-- 
2.43.0


From 98b6f5a9aba459ae1680623119bf2f106223c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 11/28] fix: password extractor: wrote the memory of destroyed
 strings instead of passwords

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index e09fba2..26094f8 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -220,7 +220,7 @@ int main(int argc, const char *argv[])
     pwned::UserPasswordReader reader(inFile, readerOptions);
     while (!reader.eof() && !reader.bad())
     {
-      const std::string &pwd = reader.nextPassword().append("\n");
+      const std::string pwd = reader.nextPassword() + "\n";
       if (!pwd.empty())
       {
 #ifndef WITHOUT_BZ2
-- 
2.43.0


From 098be08b6e0ca037d3c201717dfe34596159878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 12/28] fix: password extractor: endless loop when .ready
 cannot be read, a half written line of it could hide another file

---
 .../pwned-password-extractor.cpp                | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 26094f8..748812d 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -183,11 +183,22 @@ int main(int argc, const char *argv[])
     std::ifstream readyFileIn(".ready");
     if (readyFileIn.is_open())
     {
-      while (!readyFileIn.eof())
+      std::string filename;
+      uintmax_t completeLines = 0; // bytes
+      while (std::getline(readyFileIn, filename) && !readyFileIn.eof())
       {
-        std::string filename;
-        std::getline(readyFileIn, filename);
         alreadyProcessed[filename] = true;
+        completeLines += filename.size() + 1;
+      }
+      if (readyFileIn.bad())
+      {
+        std::cerr << "ERROR while reading from '.ready'." << std::endl;
+        return EXIT_FAILURE;
+      }
+      readyFileIn.close();
+      if (completeLines < fs::file_size(".ready")) // the run that wrote the last line was interrupted
+      {
+        fs::resize_file(".ready", completeLines);
       }
     }
   }
-- 
2.43.0


From bc8b11778cd9dcd58933a8d774b4606b4cba8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 13/28] fix: test set extractor: division by zero, endless loop
 on read errors, repeated records, failures reported as success

---
 .../test-set-extractor.cpp                    | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index ef34f0c..59f16d7 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -19,6 +19,7 @@
 #include <fstream>
 #include <string>
 #include <random>
+#include <algorithm>
 #include <cstdint>
 
 #include <boost/program_options.hpp>
@@ -119,8 +120,13 @@ int main(int argc, const char *argv[])
     return EXIT_SUCCESS;
   }
 
+  if (N < 1)
+  {
+    std::cerr << "ERROR: the number of data sets must be positive." << std::endl;
+    return EXIT_FAILURE;
+  }
   const std::streamoff size = (std::streamoff)boost::filesystem::file_size(inputFilename);
-  const std::streamoff offset = size / N;
+  const std::streamoff offset = std::max(size / N, std::streamoff(pwned::PHC::size)); // next record at least
   std::ifstream in(inputFilename, std::ios::binary);
   if (!in.is_open())
   {
@@ -146,7 +152,16 @@ int main(int argc, const char *argv[])
     for (auto i = 0; i < N; ++i)
     {
       pwned::Hash hash(gen(), gen());
-      pwned::PHC p = inspector.binsearch(hash);
+      pwned::PHC p;
+      try
+      {
+        p = inspector.binsearch(hash);
+      }
+      catch (const std::exception &e)
+      {
+        std::cerr << "ERROR: " << e.what() << std::endl;
+        return EXIT_FAILURE;
+      }
       if (p.count == 0)
       {
         if (writeLoadTestUrls)
@@ -183,9 +198,20 @@ int main(int argc, const char *argv[])
         }
         ++i;
       }
+      else
+      {
+        std::cerr << "ERROR: cannot read from '" << inputFilename << "'." << std::endl;
+        return EXIT_FAILURE;
+      }
     }
   }
 
+  out.close();
+  if (!out)
+  {
+    std::cerr << "ERROR: cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
-- 
2.43.0


From 894a770d5a0a940dcfaa5e7b6e775d2c5f6348fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 14/28] fix: password extractor: read its own output when that
 lies in the source directory, and never ended

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 748812d..e44b8d5 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -143,6 +143,11 @@ int main(int argc, const char *argv[])
   for (const auto &f : fileTreeIterator)
   {
     const std::string &filePath = f.path().string();
+    boost::system::error_code ec;
+    if (fs::equivalent(f.path(), outputFilename, ec))
+    {
+      continue; // the output file isn't an input
+    }
     if (fs::is_regular_file(f) && ba::ends_with(filePath, ".txt"))
     {
       inputFilenames.push_back(filePath);
-- 
2.43.0


From 0fc2744f9c46158f162295c61ae9505701748f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 15/28] fix: be2le: emptied its input when it was given as
 output, too

---
 deprecated/be2le/be2le.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 738726e..d428f50 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -19,6 +19,8 @@
 #include <fstream>
 #include <string>
 
+#include <boost/filesystem.hpp>
+
 #include <pwned-lib/passwordhashandcount.hpp>
 
 int main(int argc, const char *argv[])
@@ -30,6 +32,12 @@ int main(int argc, const char *argv[])
   }
   const std::string &inputFilename = argv[1];
   const std::string &outputFilename = argv[2];
+  boost::system::error_code ec;
+  if (boost::filesystem::equivalent(inputFilename, outputFilename, ec))
+  {
+    std::cerr << "ERROR: input and output are the same file." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::ifstream in(inputFilename, std::ios::binary);
   std::ofstream out(outputFilename, std::ios::binary | std::ios::trunc);
   std::cout << "Input file:  " << inputFilename << std::endl
-- 
2.43.0


From 243c8f43f22a5a9593118b1e7805b5515a251187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 16/28] fix: merger: destroyed an input file that was given as
 destination, too

---
 pwned-merger-cli/pwned-merger-cli.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 5fdcffe..6c28570 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -155,6 +155,15 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: at least 2 files must be processed at once." << std::endl;
     return EXIT_FAILURE;
   }
+  for (const auto &filename : filenames)
+  {
+    boost::system::error_code ec;
+    if (fs::equivalent(filename, dstFile, ec))
+    {
+      std::cerr << "ERROR: '" << filename << "' is an input file and can't be the destination file." << std::endl;
+      return EXIT_FAILURE;
+    }
+  }
   if (fs::exists(dstFile))
   {
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
-- 
2.43.0


From b0a4e77479f477f6f80c6256c225ff2ff313fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 17/28] fix: index, test set extractor, markov generator:
 overwrote their input when it was given as output, too

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 6 ++++++
 extras/pwned-test-set-extractor/test-set-extractor.cpp   | 6 ++++++
 pwned-index/index.cpp                                    | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 1b763ff..be5e1e7 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -131,6 +131,12 @@ int main(int argc, char* argv[])
     return EXIT_FAILURE;
   }
 
+  boost::system::error_code ec;
+  if (fs::equivalent(inputFilename, outputFilename, ec))
+  {
+    std::cerr << "ERROR: input and output are the same file." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::ifstream inputFile(inputFilename);
   if (!inputFile.is_open())
   {
diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index 59f16d7..c88aba8 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -125,6 +125,12 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: the number of data sets must be positive." << std::endl;
     return EXIT_FAILURE;
   }
+  boost::system::error_code ec;
+  if (boost::filesystem::equivalent(inputFilename, outputFilename, ec))
+  {
+    std::cerr << "ERROR: input and output are the same file." << std::endl;
+    return EXIT_FAILURE;
+  }
   const std::streamoff size = (std::streamoff)boost::filesystem::file_size(inputFilename);
   const std::streamoff offset = std::max(size / N, std::streamoff(pwned::PHC::size)); // next record at least
   std::ifstream in(inputFilename, std::ios::binary);
diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index 7383236..02de70a 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -126,6 +126,13 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  boost::system::error_code eqError;
+  if (fs::equivalent(inputFilename, outputFilename, eqError) || fs::equivalent(inputFilename, outputFilename + ".tmp", eqError))
+  {
+    std::cerr << "ERROR: input and output are the same file." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   const unsigned int shift = (unsigned int)(sizeof(pwned::index_key_t) * 8 - bits);
   const pwned::index_key_t maxIdx = pwned::index_key_t(1) + (std::numeric_limits<pwned::index_key_t>::max() >> shift);
 
-- 
2.43.0


From 9244daab0a7f1178effd2970bcfd44e48eae9327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 18/28] fix: password reader: crashed on very long lines

---
 pwned-lib/userpasswordreader.cpp | 6 +++---
 pwned-lib/userpasswordreader.hpp | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index cde4101..c06eea6 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -94,7 +94,7 @@ bool UserPasswordReader::checkForMD5Hashes()
       line.erase(std::remove(line.begin(), line.end(), '\r'), line.end());
       if (line.find(guessedSeparator) != std::string::npos)
       {
-        if (std::regex_search(line, MD5Regex))
+        if (line.size() <= MaxLineLength && std::regex_search(line, MD5Regex))
         {
           forceEvaluateMD5Hashes = true;
           break;
@@ -119,7 +119,7 @@ bool UserPasswordReader::checkForHexEncodedPasswords()
       std::getline(input, line);
       if (line.find(guessedSeparator) != std::string::npos)
       {
-        if (std::regex_search(line, HexRegex))
+        if (line.size() <= MaxLineLength && std::regex_search(line, HexRegex))
         {
           forceEvaluateHexEncodedPasswords = true;
           break;
@@ -159,7 +159,7 @@ std::string UserPasswordReader::nextPassword()
     return std::string();
   std::getline(input, currentLine);
   ++lineNo;
-  if (currentLine.size() > 200 || currentLine.size() < 1) // assume no user:pass line is longer than 200 characters
+  if (currentLine.size() > MaxLineLength || currentLine.size() < 1) // assume no user:pass line is longer
     return std::string();
   return extractPassword(currentLine);
 }
diff --git a/pwned-lib/userpasswordreader.hpp b/pwned-lib/userpasswordreader.hpp
index aed54a2..7870909 100755
--- a/pwned-lib/userpasswordreader.hpp
+++ b/pwned-lib/userpasswordreader.hpp
@@ -54,6 +54,7 @@ protected:
 
 private:
   static const int nTries{500};
+  static const size_t MaxLineLength{200};
   uint64_t validEntries{0};
   uint64_t lineNo{0};
   char guessedSeparator{'\0'};
-- 
2.43.0


From 449d8febf9a58c9e24e069a3b13d2c1d33ae587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 19/28] fix: markov: a damaged model's count decided how much
 memory was reserved, and ended the program

---
 pwned-lib/markovchain.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 44b2b7f..483d2f0 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -230,7 +230,6 @@ public:
       const uint32_t firstSymbolCount = read<uint32_t>(is);
       if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
-      mFirstSymbolSortedProbs.reserve(firstSymbolCount);
       for (uint32_t i = 0; i < firstSymbolCount; ++i)
       {
         const symbol_type c = read<symbol_type>(is);
-- 
2.43.0


From 84b6c1716b1f15aa80e9e8bbcdfa81f23c7f6121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 20/28] fix: benchmark: crashed when a run was cut short by a
 fault or without index file, took a part of the test set for all of it

---
 extras/pwned-benchmark/benchmark.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-benchmark/benchmark.cpp b/extras/pwned-benchmark/benchmark.cpp
index 38fce48..916ebcf 100755
--- a/extras/pwned-benchmark/benchmark.cpp
+++ b/extras/pwned-benchmark/benchmark.cpp
@@ -334,6 +334,11 @@ int main(int argc, const char *argv[])
   {
     phcs.push_back(phc);
   }
+  if (!testset.is_open() || testset.bad())
+  {
+    std::cerr << "ERROR: Cannot read test set file '" << testsetFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << phcs.size() << " hashes." << std::endl;
   std::vector<double> runTimes;
   if (indexFilename.empty())
@@ -342,7 +347,7 @@ int main(int argc, const char *argv[])
     benchmarkWithoutIndex(nRuns, runTimes, inputFilename, phcs, searchCallable);
   }
   else {
-    if (fs::file_size(indexFilename) % sizeof(uint64_t) == 0)
+    if (fs::exists(indexFilename) && fs::file_size(indexFilename) % sizeof(uint64_t) == 0)
     {
       std::cout << "Using *binsearch* algorithm with index." << std::endl;
       benchmarkWithIndex(nRuns, runTimes, inputFilename, phcs, indexFilename);
@@ -352,6 +357,10 @@ int main(int argc, const char *argv[])
       std::cerr << "ERROR: Invalid index file." << std::endl;
     }
   }
+  if (int(runTimes.size()) < nRuns)
+  {
+    return EXIT_FAILURE;
+  }
   std::sort(runTimes.begin(), runTimes.end());
   std::cout << std::endl
             << "Overall lookup time (best/median/avg): " << pwned::readableTime(runTimes.front())
-- 
2.43.0


From 5262090dd271dbb2401a100d1941af9690593c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:31 +0000
Subject: [PATCH 21/28] fix: converter: opened all input files at once, failed
 when there were more than may be open

---
 pwned-converter-cli/convertoperation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 192b7e7..752656e 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -52,7 +52,6 @@ public:
       , maxMem(std::max<uint64_t>(maxMem, 1))
       , options(options)
   {
-    inputFile.open(srcFilename, std::ios::binary);
   }
   const fs::path srcFilePath;
   const fs::path dstPath;
@@ -89,6 +88,8 @@ void ConvertOperation::execute() noexcept(false)
            << std::endl;
     std::cout << output.str();
   }
+  // not before it's this operation's turn, because only a limited number of files may be open at once
+  d->inputFile.open(d->srcFilePath.string(), std::ios::binary);
   if (!d->inputFile.is_open())
   {
     throw pwned::OperationException("Cannot open " + d->srcFilePath.string(), cannotReadFromFile);
-- 
2.43.0


From 3d476434d602fa3e86475c820e23b274b3af9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 22/28] fix: load tester: does not compile (std::ifstream is
 incomplete)

---
 pwned-server/loadtest/httpclientworker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pwned-server/loadtest/httpclientworker.hpp b/pwned-server/loadtest/httpclientworker.hpp
index 0692f64..5441c66 100644
--- a/pwned-server/loadtest/httpclientworker.hpp
+++ b/pwned-server/loadtest/httpclientworker.hpp
@@ -19,6 +19,7 @@
 #define __httpclientworker_hpp__
 
 #include <cstdint>
+#include <fstream>
 #include <string>
 #include <random>
 #include <vector>
-- 
2.43.0


From 5fd94a365d21cca44297bf51a7a11397eeaf532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 23/28] fix: load tester: crashed on an empty input file, could
 wait forever after a timeout, took surplus bytes for the next response

---
 pwned-server/loadtest/httpclientworker.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pwned-server/loadtest/httpclientworker.cpp b/pwned-server/loadtest/httpclientworker.cpp
index a0cc34e..e43a002 100644
--- a/pwned-server/loadtest/httpclientworker.cpp
+++ b/pwned-server/loadtest/httpclientworker.cpp
@@ -65,8 +65,8 @@ HttpClientWorker::HttpClientWorker(
   int id)
     : mIoc(ioc)
     , mCtx(ctx)
-    , mResolver(ioc)
-    , mStream(ioc)
+    , mResolver(net::make_strand(ioc))
+    , mStream(mResolver.get_executor())
     , mGen(uint64_t(id))
     , mInputFile(inputFilename, std::ios::binary)
     , mInputSize(boost::filesystem::file_size(inputFilename))
@@ -85,7 +85,7 @@ void HttpClientWorker::start()
   }
   if (mURI.scheme() == "https")
   {
-    mSSLStream = beast::ssl_stream<beast::tcp_stream>(mIoc, mCtx);
+    mSSLStream = beast::ssl_stream<beast::tcp_stream>(mResolver.get_executor(), mCtx);
     if (!mSSLStream.is_initialized())
     {
       std::cerr << "ERROR: Could not initialize ssl_stream." << std::endl;
@@ -98,8 +98,13 @@ void HttpClientWorker::start()
       return;
     }
   }
-  const std::streamoff pos = (std::streamoff)(mGen() % mInputSize);
-  const std::streamoff idx = pos - pos % (std::streamoff)pwned::PHC::size;
+  const uint64_t recordCount = mInputSize / uint64_t(pwned::PHC::size);
+  if (recordCount == 0)
+  {
+    std::cerr << "ERROR: Input file is empty." << std::endl;
+    return;
+  }
+  const std::streamoff idx = std::streamoff(mGen() % recordCount) * (std::streamoff)pwned::PHC::size;
   pwned::PasswordHashAndCount phc;
   bool ok = phc.read(mInputFile, idx);
   if (!ok)
@@ -254,6 +259,7 @@ void HttpClientWorker::restart()
 {
   mRes.clear();
   mRes.body().clear();
+  mBuffer.clear();
   const auto now = std::chrono::steady_clock::now();
   mTStop = now;
   if (now < mT1)
-- 
2.43.0


From 6e61df6601359db625cb41250d7ee36f12ac881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:24 +0000
Subject: [PATCH 24/28] fix: merger: an empty destination file stayed if memory
 ran out while it was opened

---
 pwned-merger-cli/mergeoperation.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index 7c111ad..9a77200 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -131,7 +131,18 @@ void MergeOperation::execute() noexcept(false)
            << std::endl;
     std::cout << output.str();
   }
-  d->dstFile.open(d->dstFilePath.string(), std::ios::out | std::ios::binary);
+  const std::string dstFilename = d->dstFilePath.string();
+  try
+  {
+    d->dstFile.open(dstFilename, std::ios::out | std::ios::binary);
+  }
+  catch (const std::bad_alloc &)
+  {
+    // the file exists, but there's no memory for its buffer
+    boost::system::error_code ec;
+    fs::remove(d->dstFilePath, ec);
+    throw;
+  }
   if (!d->dstFile.is_open())
   {
     std::cerr << "Cannot open '" << d->dstFilePath.string() << "' for writing: " << std::strerror(errno) << std::endl;
-- 
2.43.0


From 315a27d2fe2bf09f5d20a506ff25cc05e548a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:24 +0000
Subject: [PATCH 25/28] fix: password dialogues: reading that failed was taken
 for the end of the input

---
 extras/pwned-markov-lookup/pwned-markov-lookup.cpp | 5 +++++
 pwned-lookup-cli/pwned-lookup-cli.cpp              | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
index 08fd48f..cfa7c1f 100644
--- a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
+++ b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
@@ -55,6 +55,11 @@ int main(int argc, char *argv[])
     pwned::setStdinEcho(false);
     std::cin >> pwd;
     pwned::setStdinEcho(true);
+    if (std::cin.bad())
+    {
+      std::cerr << "ERROR: cannot read password." << std::endl;
+      return EXIT_FAILURE;
+    }
     if (pwd.empty())
       break;
     const std::basic_string<symbol_type> &wPwd = boost::locale::conv::utf_to_utf<symbol_type>(pwd);
diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 8786644..6963dba 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -127,5 +127,10 @@ int main(int argc, const char *argv[])
     std::cout << "Lookup time: " << time_span.count() * 1000 << " ms" << std::endl
               << std::endl;
   }
+  if (std::cin.bad())
+  {
+    std::cerr << "ERROR: cannot read password." << std::endl;
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From f34d66304469b671a451dc3e83f2f667ad8975ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:16 +0000
Subject: [PATCH 26/28] fix: lookup page: a late answer or failure of an
 earlier lookup was shown for the password entered last, failed lookups as
 "not found"

---
 pwned-lookup-web/index.html | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pwned-lookup-web/index.html b/pwned-lookup-web/index.html
index 5a44814..9c2db4a 100644
--- a/pwned-lookup-web/index.html
+++ b/pwned-lookup-web/index.html
@@ -104,6 +104,7 @@
       const LookupURL = 'https://ersatzworld.net/v1/pwned/api/lookup?hash='
       const InfoURL = 'https://ersatzworld.net/v1/pwned/api/info'
       let el
+      let lookupCount = 0
       const displayError = err => {
         el.resultContainer.classList.add('invisible')
         el.errorContainer.classList.remove('invisible')
@@ -111,6 +112,7 @@
       }
       const formatNumber = x => x.toString().replace(/(\d)(?=(\d{3})+(?!\d))/g, '$1,')
       const lookup = () => {
+        const current = ++lookupCount // answers can arrive in another order than they were asked for
         const hash = md5(el.password.value)
         el.hash.innerHTML = `${hash.substring(0, 8)}&hellip;${hash.slice(-8)}`
         el.hash.title = hash
@@ -118,8 +120,19 @@
         el.found.classList.remove('found', 'notfound')
         el.lookupTimeMs.innerText = ''
         fetch(`${LookupURL}${hash}`)
-        .then(response => response.json())
+        .then(response => {
+          if (!response.ok) {
+            throw new Error(`Lookup failed (HTTP status ${response.status})`)
+          }
+          return response.json()
+        })
         .then(data => {
+          if (current !== lookupCount) {
+            return
+          }
+          if (!(data['found'] >= 0)) {
+            throw new Error('Lookup failed (invalid response)')
+          }
           if (data['found'] > 0) {
             el.found.classList.add('found')
             el.found.innerText = `${formatNumber(data['found'])} times`
@@ -132,7 +145,11 @@
           el.resultContainer.classList.remove('invisible')
           el.errorContainer.classList.add('invisible')
         })
-        .catch(err => displayError(err))
+        .catch(err => {
+          if (current === lookupCount) {
+            displayError(err)
+          }
+        })
       }
       const main = () => {
         el = {
-- 
2.43.0


From 654e38a3e537616d769b8d9185995e24eff2c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:51 +0000
Subject: [PATCH 27/28] fix: converter: threads of finished conversions kept
 their stacks, so that some 32,000 input files ended in an abort

---
 pwned-lib/operationqueue.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index c71158c..25e4a37 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -26,6 +26,7 @@
 #include <queue>
 #include <cstring>
 #include <cstdint>
+#include <algorithm>
 
 #include "semaphore.hpp"
 #include "operation.hpp"
@@ -53,6 +54,7 @@ class OperationQueue
   std::priority_queue<T*, std::vector<T*>, decltype(opGreaterPriority)> unscheduledOps{opGreaterPriority};
   std::list<T*> runningOps;
   std::list<std::thread> opThreads;
+  std::list<std::thread> finishedThreads;
   std::thread exeThread;
   mutable std::mutex mtx;
   std::mutex pauseMtx;
@@ -192,6 +194,13 @@ public:
     std::lock_guard<std::mutex> lock(mtx);
     runningOps.remove(op);
     delete op;
+    const auto self = std::find_if(opThreads.begin(), opThreads.end(), [](const std::thread &thread) {
+      return thread.get_id() == std::this_thread::get_id();
+    });
+    if (self != opThreads.end())
+    {
+      finishedThreads.splice(finishedThreads.end(), opThreads, self);
+    }
   }
 
   void execute(bool _waitForScheduled = false)
@@ -220,6 +229,12 @@ public:
           guard.notify();
           break;
         }
+        // the threads of finished operations keep their stacks until they are joined
+        for (auto &thread : finishedThreads)
+        {
+          thread.join();
+        }
+        finishedThreads.clear();
         T *const op = unscheduledOps.top();
         unscheduledOps.pop();
         runningOps.push_back(op);
@@ -254,11 +269,15 @@ public:
   void waitForFinished()
   {
     waitForScheduled();
-    for (auto &thread : opThreads)
+    std::list<std::thread> threads;
+    mtx.lock();
+    threads.splice(threads.end(), opThreads);
+    threads.splice(threads.end(), finishedThreads);
+    mtx.unlock();
+    for (auto &thread : threads)
     {
       thread.join();
     }
-    opThreads.clear();
     std::lock_guard<std::mutex> lock(mtx);
     _isRunning = false;
     setPaused(false);
-- 
2.43.0


From 620cfe972a0aa7003a4fab809168fed6232ed4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:41 +0000
Subject: [PATCH 28/28] fix: converter: a file that another program created
 just after the name was found to be free was overwritten

---
 pwned-converter-cli/convertoperation.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 752656e..8d09bdf 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -17,6 +17,8 @@
 
 #include <algorithm>
 #include <iostream>
+#include <cerrno>
+#include <cstdio>
 #include <map>
 #include <mutex>
 
@@ -38,6 +40,20 @@ enum ConverterError
 
 static std::mutex dstMtx;
 
+// creates an empty file, unless there is one of that name already
+static bool reserve(const std::string &filename)
+{
+  std::FILE *const f = std::fopen(filename.c_str(), "wbx");
+  if (f != nullptr)
+  {
+    std::fclose(f);
+    return true;
+  }
+  if (errno == EEXIST)
+    return false;
+  throw pwned::OperationException("Cannot write to " + filename, cannotWriteToFile);
+}
+
 class ConvertOperationPrivate
 {
 public:
@@ -168,7 +184,7 @@ void ConvertOperation::execute() noexcept(false)
     std::unique_lock<std::mutex> dstLock(dstMtx);
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
     int n = splitFileNum;
-    while (fs::exists(dstFilePath))
+    while (fs::exists(dstFilePath) || !reserve(dstFilePath.string())) // another program may be about to choose it, too
     {
       dstFilePath = generatedOutputFilename() + pwned::string_format("-%04x", n) + d->outputExt.string();
       ++n;
@@ -182,6 +198,8 @@ void ConvertOperation::execute() noexcept(false)
     dstLock.unlock();
     if (!f.is_open())
     {
+      boost::system::error_code ec;
+      fs::remove(dstFilePath, ec);
       throw pwned::OperationException("Cannot write to " + dstFilePath.string(), cannotWriteToFile);
     }
     for (const auto &phc : passwordList)
-- 
2.43.0

