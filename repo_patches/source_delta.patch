From ec27136806a6978014a11817a1b18d0de3565a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:34 +0000
Subject: [PATCH 01/50] fix: take the lock in InterthreadMap1::size()
 (ScopedLock(mLock); declared a variable)

---
 Interthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index b6057d2..6e89efa 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -595,7 +595,7 @@ public:
 	}
 
 	// pat added.
-	unsigned size() const { ScopedLock(mLock); return mMap.size(); }
+	unsigned size() const { ScopedLock lock(mLock); return mMap.size(); }
 
 	// WARNING: These iterators are not intrinsically thread safe.
 	// Caller must use ScopedIterator or the modification lock or enclose the entire iteration in some higher level lock.
-- 
2.43.0


From 5fcd41135e590507f1d0fe2ee24238d34d244128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 02/50] fix: InterthreadQueue hands out and asserts the lock it
 uses when connected (mLockPointer)

---
 Interthread.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 6e89efa..795c61e 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -132,13 +132,13 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 	}
 
 	// (pat) This provides a client the ability to lock the InterthreadQueue and iterate it.
-	Mutex &qGetLock() const { return mLock; }
+	Mutex &qGetLock() const { return *mLockPointer; }
 	typedef typename Fifo::iterator iterator;
 	typedef typename Fifo::const_iterator const_iterator;
-	iterator begin() { assert(mLock.lockcnt()); return mQ.begin(); }
-	iterator end() { assert(mLock.lockcnt()); return mQ.end(); }
-	const_iterator begin() const { assert(mLock.lockcnt()); return mQ.begin(); }
-	const_iterator end() const { assert(mLock.lockcnt()); return mQ.end(); }
+	iterator begin() { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	iterator end() { assert(mLockPointer->lockcnt()); return mQ.end(); }
+	const_iterator begin() const { assert(mLockPointer->lockcnt()); return mQ.begin(); }
+	const_iterator end() const { assert(mLockPointer->lockcnt()); return mQ.end(); }
 
 #if USE_SCOPED_ITERATORS
 	// The Iterator locks the InterthreadQueue until the Iterator falls out of scope.
-- 
2.43.0


From 58fd2d3d1b80fced95cabe8e93ee2908931291d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 03/50] fix: InterthreadQueue writes wake all waiters, a
 connected queue shares the signal

---
 Interthread.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 795c61e..1a9fb74 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -307,7 +307,7 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		{ ScopedLock lock(*mLockPointer);
 		  mQ.put(val);
 		}
-		mWriteSignalPointer->signal();
+		mWriteSignalPointer->broadcast();	// Readers of a connected queue wait on the same signal.
 	}
 
 	/** Non-block write to the front of the queue. aka push_front */
@@ -317,7 +317,7 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		{ ScopedLock lock(*mLockPointer);
 		  mQ.push_front(val);
 		}
-		mWriteSignalPointer->signal();
+		mWriteSignalPointer->broadcast();	// Readers of a connected queue wait on the same signal.
 	}
 };
 
-- 
2.43.0


From cd5cc3a61c3ce9ee434d1757dcafb41f070ab7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 04/50] fix: InterthreadQueueWithWait wakes all low-water
 waiters, their marks may differ

---
 Interthread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interthread.h b/Interthread.h
index 1a9fb74..783b59b 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -343,7 +343,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		while (mQ.size()>0) freeElement((T*)mQ.get());
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 	}
 
 
@@ -370,7 +370,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock);
 			retVal = (T*)mQ.get();
 		}
-		mReadSignal.signal();
+		mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -395,7 +395,7 @@ template <class T> class InterthreadQueueWithWait {
 			mWriteSignal.wait(mLock,remaining);
 		}
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
@@ -407,7 +407,7 @@ template <class T> class InterthreadQueueWithWait {
 	{
 		ScopedLock lock(mLock);
 		T* retVal = (T*)mQ.get();
-		if (retVal!=NULL) mReadSignal.signal();
+		if (retVal!=NULL) mReadSignal.broadcast();
 		return retVal;
 	}
 
-- 
2.43.0


From 7a0a3f84c19a050a24b566fcf612f71b317a72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 05/50] fix: iqWaitForEither returns when its timeout has
 passed

---
 Interthread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Interthread.h b/Interthread.h
index 783b59b..3ca6d7c 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -222,7 +222,9 @@ template <class T, class Fifo=PtrList<T> > class InterthreadQueue {
 		if (timeout) {
 			Timeval waitTime(timeout);
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-				mWriteSignalPointer->wait(*mLockPointer,waitTime.remaining());
+				long remaining = waitTime.remaining();
+				if (remaining < 2) { return; }
+				mWriteSignalPointer->wait(*mLockPointer,remaining);
 			}
 		} else {	// Wait forever.
 			while (mQ.size() == 0 && other.mQ.size() == 0) {
-- 
2.43.0


From 93acd8b449b54e153541426bb564ca05fdc090c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 06/50] fix: InterthreadMap deletes its contents on destruction

---
 Interthread.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Interthread.h b/Interthread.h
index 3ca6d7c..a327b9d 100644
--- a/Interthread.h
+++ b/Interthread.h
@@ -614,6 +614,17 @@ public:
 template <class K, class D > class InterthreadMap : public InterthreadMap1<K,D*>
 {
 	void vdelete(D* foo) { delete foo; }
+	public:
+	// The base class destructor cannot reach our vdelete any more, so delete the contents here.
+	~InterthreadMap() {
+		ScopedLock lock(this->mLock);
+		typename InterthreadMap1<K,D*>::Map::iterator iter = this->mMap.begin();
+		while (iter != this->mMap.end()) {
+			delete iter->second;
+			++iter;
+		}
+		this->mMap.clear();
+	}
 };
 
 
-- 
2.43.0


From 273a67f587bf7792f9084590085ee474193f1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 07/50] fix: Mutex::timedlock succeeds only if the mutex was
 locked, and counts it

---
 Threads.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Threads.cpp b/Threads.cpp
index b20e158..49d7f55 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -125,7 +125,12 @@ bool Mutex::timedlock(int msecs) // Wait this long in milli-seconds.
 {
 	Timeval future(msecs);
 	struct timespec timeout = future.timespec();
-	return ETIMEDOUT != pthread_mutex_timedlock(&mMutex, &timeout);
+	if (pthread_mutex_timedlock(&mMutex, &timeout) != 0) { return false; }
+	if (mLockCnt >= 0 && mLockCnt < maxLocks) {
+		mLockerFile[mLockCnt] = 0; mLockerLine[mLockCnt] = 0;
+	}
+	mLockCnt++;
+	return true;
 }
 
 // There is a chance here that the mLockerFile&mLockerLine
@@ -162,7 +167,9 @@ void Mutex::lock(const char *file, unsigned line)
 	if (file) {
 		LOCKLOG(DEBUG,"start at %s %u",file,line);
 		// If we wait more than a second, print an error message.
-		if (!timedlock(1000)) {
+		if (timedlock(1000)) {
+			mLockCnt--;					// Counted below, for every way of locking.
+		} else {
 			string backtrace = rn_backtrace();
 			LOCKLOG(ERR, "Blocked more than one second at %s %u by %s %s",file,line,mutext().c_str(),backtrace.c_str());
 			printf("WARNING: %s Blocked more than one second at %s %u by %s %s\n",timestr(4).c_str(),file,line,mutext().c_str(),backtrace.c_str());
-- 
2.43.0


From 0faa35aead817d8af7eff52c57be0ead1f6166cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 08/50] fix: ScopedLockMultiple releases the mutexes it holds
 before blocking on another

---
 Threads.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Threads.cpp b/Threads.cpp
index 49d7f55..b237331 100644
--- a/Threads.cpp
+++ b/Threads.cpp
@@ -218,7 +218,9 @@ void ScopedLockMultiple::_init(int wOwner, Mutex& wA, Mutex&wB, Mutex&wC) {
 	_saveState();
 }
 void ScopedLockMultiple::_lock(int which) {
-	if (state[which]) return;
+	if (_trylock(which)) return;
+	// Never block on one mutex while holding another.
+	for (int i = 0; i <= 2; i++) { _unlock(i); }
 	mA[which]->lock(_file,_line);
 	state[which] = true;
 }
-- 
2.43.0


From 33dd4e99c10f778df5ba7d62aae2fc61c655434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 09/50] fix: addAlarm does not use the configuration while
 holding alarmsLock

---
 Logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index 3bc858d..d1a9d08 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -197,11 +197,11 @@ list<string> gGetLoggerAlarms()
 /** Add an alarm to the alarm list. */
 void addAlarm(const string& s)
 {
-    alarmsLock.lock();
-    alarmsList.push_back(s);
+	// Do not use gConfig while holding alarmsLock: it takes its own lock, may log, and may throw.
 	unsigned maxAlarms = gConfig.getNum("Log.Alarms.Max");
+	ScopedLock lock(alarmsLock);
+    alarmsList.push_back(s);
     while (alarmsList.size() > maxAlarms) alarmsList.pop_front();
-    alarmsLock.unlock();
 }
 
 
-- 
2.43.0


From d42afd86d629f86cd0849fd59dcbb2c1c1a5a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 10/50] fix: alarm list and log level cache release their locks
 when the containers throw

---
 Logger.cpp | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index d1a9d08..b513a74 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -152,28 +152,24 @@ int gGetLoggingLevel(const char* filename)
 	HashString hs(filename);
 	uint64_t key = hs.hash();
 
-	sLogCacheLock.lock();
-	// Time for a cache flush?
-	if (sCacheCount>sCacheRefreshCount) {
-		sLogCache.clear();
-		sCacheCount=0;
-	}
-	// Is it cached already?
-	map<uint64_t,int>::const_iterator where = sLogCache.find(key);
-	sCacheCount++;
-	if (where!=sLogCache.end()) {
-		int retVal = where->second;
-		sLogCacheLock.unlock();
-		return retVal;
+	{
+		ScopedLock lock(sLogCacheLock);
+		// Time for a cache flush?
+		if (sCacheCount>sCacheRefreshCount) {
+			sLogCache.clear();
+			sCacheCount=0;
+		}
+		// Is it cached already?
+		map<uint64_t,int>::const_iterator where = sLogCache.find(key);
+		sCacheCount++;
+		if (where!=sLogCache.end()) return where->second;
 	}
 	// Look it up in the config table and cache it.
 	// FIXME: Figure out why unlock and lock below fix the config table deadlock.
 	// (pat) Probably because getLoggingLevel may call LOG recursively via lookupLevel().
-	sLogCacheLock.unlock();
 	int level = getLoggingLevel(filename);
-	sLogCacheLock.lock();
+	ScopedLock lock(sLogCacheLock);
 	sLogCache.insert(pair<uint64_t,int>(key,level));
-	sLogCacheLock.unlock();
 	return level;
 }
 
@@ -184,13 +180,12 @@ int gGetLoggingLevel(const char* filename)
 // copies the alarm list and returns it. list supposed to be small.
 list<string> gGetLoggerAlarms()
 {
-    alarmsLock.lock();
+    ScopedLock lock(alarmsLock);
     list<string> ret;
     // excuse the "complexity", but to use std::copy with a list you need
     // an insert_iterator - copy technically overwrites, doesn't insert.
     insert_iterator< list<string> > ii(ret, ret.begin());
     copy(alarmsList.begin(), alarmsList.end(), ii);
-    alarmsLock.unlock();
     return ret;
 }
 
-- 
2.43.0


From 64de496afc4d1178ac12edda8ba5a87945a13633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 11/50] fix: the report batch lock is released when the batch
 map throws

---
 Reporting.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index b77c4e0..885d570 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -65,11 +65,12 @@ ReportingTable::ReportingTable(const char* filename)
 bool ReportingTable::create(const char* paramName)
 {
 	// add this report name to the batch map
-	mLock.lock();
-	if (mBatch.find(paramName) == mBatch.end()) {
-		mBatch[paramName] = 0;
+	{
+		ScopedLock lock(mLock);
+		if (mBatch.find(paramName) == mBatch.end()) {
+			mBatch[paramName] = 0;
+		}
 	}
-	mLock.unlock();
 
 	// and to the database
 	char cmd[200];
@@ -85,9 +86,8 @@ bool ReportingTable::create(const char* paramName)
 
 bool ReportingTable::incr(const char* paramName)
 {
-	mLock.lock();
+	ScopedLock lock(mLock);
 	mBatch[paramName]++;
-	mLock.unlock();
 
 	return true;
 }
@@ -172,17 +172,18 @@ bool ReportingTable::commit()
 	unsigned oustandingCount = 0;
 
 	// copy out to free up access to mBatch as quickly as possible
-	mLock.lock();
-	mp = mBatch.begin();
-	while (mp != mBatch.end()) {
-		if (mp->second > 0) {
-			oustanding[mp->first] = mp->second;
-			mBatch[mp->first] = 0;
-			oustandingCount++;
+	{
+		ScopedLock lock(mLock);
+		mp = mBatch.begin();
+		while (mp != mBatch.end()) {
+			if (mp->second > 0) {
+				oustanding[mp->first] = mp->second;
+				mBatch[mp->first] = 0;
+				oustandingCount++;
+			}
+			mp++;
 		}
-		mp++;
 	}
-	mLock.unlock();
 
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
-- 
2.43.0


From aadccd5d43847418bfcf807859831760e6f3d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 12/50] fix: counts that could not be committed stay in the
 report batch

---
 Reporting.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reporting.cpp b/Reporting.cpp
index 885d570..e371298 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -196,6 +196,9 @@ bool ReportingTable::commit()
 			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
 			if (!sqlite3_command(mDB,cmd)) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
+				// Keep the counts for the next commit.
+				ScopedLock lock(mLock);
+				mBatch[mp->first] += mp->second;
 			}
 			mp++;
 		}
-- 
2.43.0


From 57ed5c52fb6e990f195548b597768da3f1bf0287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 13/50] fix: UnixSignal releases the handler list lock when a
 handler or the list throws

---
 UnixSignal.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/UnixSignal.cpp b/UnixSignal.cpp
index de55b3c..771b444 100644
--- a/UnixSignal.cpp
+++ b/UnixSignal.cpp
@@ -97,13 +97,14 @@ void UnixSignal::Handler(int sig)
     }
 
     printf("Processing signal vector for sig %d\n", sig);
-    mLock[sig].lock();
-    for (std::list<sighandler_t>::iterator i = mListHandlers[sig].begin();
-	i != mListHandlers[sig].end(); i++)
     {
-    	(*i)(sig);
+	ScopedLock lock(mLock[sig]);
+	for (std::list<sighandler_t>::iterator i = mListHandlers[sig].begin();
+	    i != mListHandlers[sig].end(); i++)
+	{
+	    (*i)(sig);
+	}
     }
-    mLock[sig].unlock();
     printf("Done processing signal vector for sig %d\n", sig);
 }
 
@@ -134,10 +135,9 @@ void UnixSignal::Register(sighandler_t handler, int sig) // register the handler
 	LOG(ERR) << "Unable to register callback for UnixSignal " << sig << " (out of range)";
 	return;
     }
-    mLock[sig].lock();
+    ScopedLock lock(mLock[sig]);
     signal(sig, _sigHandler); // only catch signals that have been registered
     mListHandlers[sig].insert(mListHandlers[sig].end(), handler);
-    mLock[sig].unlock();
 }
 
 void UnixSignal::Dump(void)
-- 
2.43.0


From a19d363133114b6091c2d1c286e08c710d4756aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 14/50] fix: peekField and readField stop at the end of the
 vector

---
 BitVector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BitVector.cpp b/BitVector.cpp
index f29ef52..4a68970 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -60,6 +60,7 @@ uint64_t BitVector::peekField(size_t readIndex, unsigned length) const
 {
 	uint64_t accum = 0;
 	char *dp = mStart + readIndex;
+	assert(dp+length <= mEnd);
 
 	for (unsigned i=0; i<length; i++) {
 		accum = (accum<<1) | ((*dp++) & 0x01);
-- 
2.43.0


From 5f26738d43fce9bf6db4a2e6c7f7bc88b2db47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 15/50] fix: BitVector map and unmap check the table entries
 against both vectors

---
 BitVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BitVector.cpp b/BitVector.cpp
index 4a68970..1bfcce6 100644
--- a/BitVector.cpp
+++ b/BitVector.cpp
@@ -227,7 +227,7 @@ unsigned BitVector::sum() const
 void BitVector::map(const unsigned *map, size_t mapSize, BitVector& dest) const
 {
 	for (unsigned i=0; i<mapSize; i++) {
-		dest.mStart[i] = mStart[map[i]];
+		dest[i] = (*this)[map[i]];
 	}
 }
 
@@ -237,7 +237,7 @@ void BitVector::map(const unsigned *map, size_t mapSize, BitVector& dest) const
 void BitVector::unmap(const unsigned *map, size_t mapSize, BitVector& dest) const
 {
 	for (unsigned i=0; i<mapSize; i++) {
-		dest.mStart[map[i]] = mStart[i];
+		dest[map[i]] = (*this)[i];
 	}
 }
 
-- 
2.43.0


From 421779af88673ce40ae7e802f3aadc888e333196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 16/50] fix: vectors keep their contents when assigned to
 themselves or from their own segments

---
 Vector.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/Vector.h b/Vector.h
index 91b850b..23db99f 100644
--- a/Vector.h
+++ b/Vector.h
@@ -145,11 +145,23 @@ template <class T> class VectorBase
 		mEnd = mStart + elements;
 	}
 
+	// Is the other vector a segment of the memory owned by this one?
+	bool aliasedBy(const VectorBase<T>& other) const
+	{
+		return this->getData() && other.mStart >= this->getData() && other.mStart <= this->mEnd;
+	}
+
 	/** Assign from another Vector, shifting ownership. */
 	// (pat) This should be eliminated, but it is used by Vector and descendents.
 	void shiftMem(VectorBase<T>&other)
 	{
 		VECTORDEBUG("VectorBase::shiftMem(%p)",(void*)&other);
+		if (&other == this) return;
+		if (!other.mData && this->aliasedBy(other)) {
+			this->mStart=other.mStart;
+			this->mEnd=other.mEnd;
+			return;
+		}
 		this->clear();
 		this->mData=other.mData;
 		this->mStart=other.mStart;
@@ -160,7 +172,7 @@ template <class T> class VectorBase
 	// Assign from another Vector, making this an alias to other.
 	void makeAlias(const VectorBase<T> &other)
 	{
-		if (this->getData()) {
+		if (this->getData() && !this->aliasedBy(other)) {
 			assert(this->getData() != other.getData()); // Not possible by the semantics of Vector.
 			this->clear();
 		}
@@ -195,8 +207,14 @@ template <class T> class VectorBase
 
 	/** Copy data from another vector. */
 	void clone(const VectorBase<T>& other) {
-		this->resize(other.size());
-		memcpy(mData,other.mStart,other.bytes());
+		// Copy before releasing our memory, other may be this vector or a segment of it.
+		size_t elements = other.size();
+		T* data = elements ? new T[elements] : NULL;
+		if (elements) memcpy(data,other.mStart,other.bytes());
+		this->clear();
+		mData = data;
+		mStart = data;
+		mEnd = data + elements;
 	}
 
 	void vConcat(const VectorBase<T>&other1, const VectorBase<T>&other2) {
-- 
2.43.0


From aaae7a42ae00ea3e5808bfd74f98a84a094118b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 17/50] fix: URLEncode hexadecimal digits above nine

---
 URLEncode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index a993ac6..f66a9cd 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -32,7 +32,7 @@ using namespace std;
 //based on javascript encodeURIComponent()
 string URLEncode(const string &c)
 {
-	static const char *digits = "01234567890ABCDEF";
+	static const char *digits = "0123456789ABCDEF";
 	string retVal="";
 	for (size_t i=0; i<c.length(); i++)
 	{
-- 
2.43.0


From 53d29f1b63f3ffa4e85ef97fd4bdb8fd5678700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 18/50] fix: URLEncode escapes the zero byte, and does not pass
 negative values to isalnum

---
 URLEncode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/URLEncode.cpp b/URLEncode.cpp
index f66a9cd..ef6c8b9 100644
--- a/URLEncode.cpp
+++ b/URLEncode.cpp
@@ -37,7 +37,7 @@ string URLEncode(const string &c)
 	for (size_t i=0; i<c.length(); i++)
 	{
 		const char ch = c[i];
-		if (isalnum(ch) || strchr("-_.!~'()",ch)) {
+		if (isalnum((unsigned char)ch) || (ch && strchr("-_.!~'()",ch))) {
 			retVal += ch;
 		} else {
 			retVal += '%';
-- 
2.43.0


From 4fee0a5353a17b74d041652b246ce2347fbdc320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 19/50] fix: Timeval::future normalises a sum of exactly one
 million microseconds

---
 Timeval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index e0ec49d..c0f9dbd 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -38,7 +38,7 @@ void Timeval::future(unsigned offset)	// In msecs
 	unsigned msec = offset%1000;
 	mTimeval.tv_usec += msec*1000;
 	mTimeval.tv_sec += sec;
-	if (mTimeval.tv_usec>1000000) {
+	if (mTimeval.tv_usec>=1000000) {
 		mTimeval.tv_usec -= 1000000;
 		mTimeval.tv_sec += 1;
 	}
-- 
2.43.0


From 6778ad70b63aa960afc89c5f109df8223539b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 20/50] fix: Timeval::delta does not overflow for times more
 than 24 days apart

---
 Timeval.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Timeval.cpp b/Timeval.cpp
index c0f9dbd..32874c8 100644
--- a/Timeval.cpp
+++ b/Timeval.cpp
@@ -72,8 +72,8 @@ double Timeval::seconds() const
 
 long Timeval::delta(const Timeval& other) const
 {
-	// 2^31 milliseconds is just over 4 years.
-	int32_t deltaS = other.sec() - sec();
+	// 2^31 milliseconds is just under 25 days, so compute in 64 bits.
+	int64_t deltaS = (int64_t)other.sec() - (int64_t)sec();
 	int32_t deltaUs = other.usec() - usec();
 	return 1000*deltaS + deltaUs/1000;
 }
-- 
2.43.0


From 90c791784ad45f1380c0f3a95691c1850f734e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 21/50] fix: isValidValue does not add an unknown key to the
 schema

---
 Configuration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 2488a6b..513b2f7 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -361,7 +361,9 @@ bool ConfigurationTable::keyDefinedInSchema(const std::string& name)
 bool ConfigurationTable::isValidValue(const std::string& name, const std::string& val) {
 	bool ret = false;
 
-	ConfigurationKey key = mSchema[name];
+	ConfigurationKeyMap::const_iterator where = mSchema.find(name);
+	if (where == mSchema.end()) return false;	// Unknown key; do not add it to the schema.
+	ConfigurationKey key = where->second;
 
 	switch (key.getType()) {
 		case ConfigurationKey::BOOLEAN: {
-- 
2.43.0


From fc3b6513ff2dea2c1a209928c7c79aad8aeb2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 22/50] fix: string search results are kept in size_t so that
 not-found is recognised

---
 Configuration.cpp | 20 ++++++++++----------
 Utils.cpp         |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 513b2f7..635d2c3 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -381,7 +381,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 		case ConfigurationKey::CHOICE: {
 			int startPos = -1;
-			uint endPos = 0;
+			size_t endPos = 0;
 
 			std::string tmp = key.getValidValues();
 
@@ -410,7 +410,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::CIDR: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
 			int cidr = -1;
 
@@ -454,7 +454,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::HOSTANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string host;
 			int port = -1;
 			bool validHost = false;
@@ -499,7 +499,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 
 		case ConfigurationKey::IPANDPORT: {
-			uint delimiter;
+			size_t delimiter;
 			std::string ip;
 			int port = -1;
 
@@ -522,8 +522,8 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 		}
 		case ConfigurationKey::MIPADDRESS: {
 			int startPos = -1;
-			uint endPos = 0;
-			uint delimiter;
+			size_t endPos = 0;
+			size_t delimiter;
 			std::string ip;
 			int port = -1;
 
@@ -1044,9 +1044,9 @@ bool ConfigurationKey::isValidIP(const std::string& ip) {
 
 
 void ConfigurationKey::getMinMaxStepping(const ConfigurationKey &key, std::string &min, std::string &max, std::string &stepping) {
-	uint delimiter;
+	size_t delimiter;
 	int startPos;
-	uint endPos;
+	size_t endPos;
 
 	std::string tmp = key.getValidValues();
 	stepping = "1";
@@ -1228,7 +1228,7 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 	tmp = key.getValidValues();
 	if (key.getType() == ConfigurationKey::VALRANGE) {
 		int startPos = tmp.find('(');
-		uint delimiter = 0;
+		size_t delimiter = 0;
 		if (startPos != (int)std::string::npos) {
 			tmp = tmp.substr(0, startPos);
 		}
@@ -1244,7 +1244,7 @@ void ConfigurationKey::printDescription(const ConfigurationKey &key, ostream& os
 
 	} else if (key.getType() == ConfigurationKey::CHOICE) {
 		int startPos = -1;
-		uint endPos = 0;
+		size_t endPos = 0;
 
 		do {
 			startPos++;
diff --git a/Utils.cpp b/Utils.cpp
index aed42c7..82c59e6 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -477,7 +477,7 @@ ostream& operator<<(std::ostream& os, const Statistic<double> &stat) { stat.text
 string replaceAll(const std::string input, const std::string search, const std::string replace)
 {
 	string output = input;
- 	unsigned index1 = 0;
+ 	size_t index1 = 0;
 
 	while (index1 < output.size()) {
 	  try {
-- 
2.43.0


From 2f932796046541b429d6ab6f410379a9abea7bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 23/50] fix: value validation does not use uninitialised
 numbers when the text has none

---
 Configuration.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 635d2c3..289c596 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -562,7 +562,7 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 			}
 		}
 		case ConfigurationKey::PORT: {
-			int intVal;
+			int intVal = 0;
 
 			std::stringstream(val) >> intVal;
 
@@ -1069,10 +1069,10 @@ void ConfigurationKey::getMinMaxStepping(const ConfigurationKey &key, std::strin
 template<class T> bool ConfigurationKey::isInValRange(const ConfigurationKey &key, const std::string& val, const bool isInteger) {
 	bool ret = false;
 
-	T convVal;
-	T min;
-	T max;
-	T steps;
+	T convVal = 0;
+	T min = 0;
+	T max = 0;
+	T steps = 0;
 	std::string strMin;
 	std::string strMax;
 	std::string strSteps;
-- 
2.43.0


From 631b3c8175abecc62f2b20e501b7ec128efb6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 24/50] fix: a regular expression that failed to compile is not
 freed

---
 Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 289c596..737f590 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -587,8 +587,8 @@ bool ConfigurationTable::isValidValue(const std::string& name, const std::string
 				regerror(result,&r,msg,255);
 			} else {
 				ret = true;
+				regfree(&r);
 			}
-			regfree(&r);
 			break;
 		}
 
-- 
2.43.0


From c8e53e949f7c1c821e099cb7f9c6b3cd7775df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 25/50] fix: SimpleKeyValue frees its copies of the text it
 parses

---
 Configuration.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 737f590..d724075 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -986,7 +986,10 @@ void SimpleKeyValue::addItem(const char* pair_orig)
 	char *pair = strdup(pair_orig);
 	char *key = pair;
 	char *mark = strchr(pair,'=');
-	if (!mark) return;
+	if (!mark) {
+		free(pair);
+		return;
+	}
 	*mark = '\0';
 	char *value = mark+1;
 	mMap[key] = value;
@@ -1029,8 +1032,9 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 void SimpleKeyValue::addItems(const char* pairs_orig)
 {
 	char *pairs = strdup(pairs_orig);
+	char *rest = pairs;	// strsep moves its argument
 	char *thisPair;
-	while ((thisPair=strsep(&pairs," "))!=NULL) {
+	while ((thisPair=strsep(&rest," "))!=NULL) {
 		addItem(thisPair);
 	}
 	free(pairs);
-- 
2.43.0


From fbca1b230e1f1a5e7b3c19942646bd2e1af6dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 26/50] fix: SimpleKeyValue::getNum reports a value it found as
 valid

---
 Configuration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Configuration.cpp b/Configuration.cpp
index d724075..625b99d 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -1024,6 +1024,7 @@ long SimpleKeyValue::getNum(const char *key, bool &valid) const
 {
 	HashStringMap::const_iterator p = mMap.find(key);
 	if (p==mMap.end()) { valid = false; return 0; }
+	valid = true;
 	// TODO: we should verify it is really a number.
 	return atol(p->second.c_str());
 }
-- 
2.43.0


From ae0c34cf3a0139a20816abd52a3ebcad950f65ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 27/50] fix: the cross check callback is initialised even if
 the database cannot be opened

---
 Configuration.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index 625b99d..b72b024 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -96,6 +96,8 @@ float ConfigurationRecord::floatNumber() const
 ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdName, ConfigurationKeyMap wSchema)
 {
 	gLogEarly(LOG_INFO, "opening configuration table from path %s", filename);
+	// Init the cross checking callback to something predictable
+	mCrossCheck = NULL;
 	// Connect to the database.
 	int rc = sqlite3_open(filename,&mDB);
 	// (pat) When I used malloc here, sqlite3 sporadically crashes.
@@ -180,9 +182,6 @@ ConfigurationTable::ConfigurationTable(const char* filename, const char *wCmdNam
 	// Add application specific schema
 	mSchema.insert(wSchema.begin(), wSchema.end());
 
-	// Init the cross checking callback to something predictable
-	mCrossCheck = NULL;
-
 #define DUMP_CONFIGURATION_TABLE 1
 #if DUMP_CONFIGURATION_TABLE
 	// (pat) Dump any non-default config variables...
-- 
2.43.0


From 7ba6d55380eda6f4833aaa2e66168bc79ab429fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 28/50] fix: HashString operator> compares the right way round

---
 Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration.h b/Configuration.h
index 5f6004d..379782d 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -171,7 +171,7 @@ class HashString : public std::string {
 
 	bool operator>(const HashString& other)
 	{
-		return mHash<other.mHash;
+		return mHash>other.mHash;
 	}
 
 	uint64_t hash() const { return mHash; }
-- 
2.43.0


From 781bd63558af7bb3ebf62801024f872ff8357ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 29/50] fix: format and format1 return strings of exactly 199
 characters whole

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 82c59e6..85ff955 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -134,7 +134,7 @@ string format(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
@@ -177,7 +177,7 @@ string format1(const char *fmt, ...)
 	int n = vsnprintf(buf,199,fmt,ap);
 	va_end(ap);
 	string result;
-	if (n <= 199) {
+	if (n < 199) {
 		result = string(buf);
 	} else {
 		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
-- 
2.43.0


From 0decc789b3af385c325f8003004c686b43cf0c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 30/50] fix: format does not look up the log level, the level
 lookup itself uses it

---
 Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 85ff955..ce5caeb 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -137,7 +137,7 @@ string format(const char *fmt, ...)
 	if (n < 199) {
 		result = string(buf);
 	} else {
-		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
+		if (n > 5000) { _LOG(ERR) << "oversized string in format"; n = 5000; }	// LOG would use the configuration, whose database errors use format
 		// We could use vasprintf but we already computed the length...
 		// We are not using alloca because it might overflow the small stacks used for our threads.
 		char *buffer = (char*)malloc(n+2);	// add 1 extra superstitiously.
@@ -180,7 +180,7 @@ string format1(const char *fmt, ...)
 	if (n < 199) {
 		result = string(buf);
 	} else {
-		if (n > 5000) { LOG(ERR) << "oversized string in format"; n = 5000; }
+		if (n > 5000) { _LOG(ERR) << "oversized string in format"; n = 5000; }	// LOG would use the configuration, whose database errors use format
 		// We could use vasprintf but we already computed the length...
 		// We are not using alloca because it might overflow the small stacks used for our threads.
 		char *buffer = (char*)malloc(n+2);	// add 1 extra superstitiously.
-- 
2.43.0


From 1a525cf5fadae05f06cfb3fdf478b38f314ec7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 31/50] fix: myscanf with one result leaves it alone when
 nothing was converted

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index ce5caeb..a297ff6 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -199,7 +199,7 @@ int myscanf(const char *str, const char *fmt, string *s1)
 	int maxlen = strlen(str)+1;
 	char *a1 = (char*)alloca(maxlen);
 	int n = sscanf(str,fmt,a1);
-	s1->assign(a1);
+	if (n == 1) s1->assign(a1);
 	return n;
 }
 int myscanf(const char *str, const char *fmt, string *s1, string *s2)
-- 
2.43.0


From 081b4d31768fbc5fbee5012181461943bdb5bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:27 +0000
Subject: [PATCH 32/50] fix: log group levels are not read through a pointer
 into a destroyed string

---
 Logger.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Logger.cpp b/Logger.cpp
index b513a74..14209bb 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -369,12 +369,10 @@ void LogGroup::LogGroupInit()
 }
 
 
-static const char*getNonEmptyStrIfDefined(string param)
+static string getNonEmptyStrIfDefined(string param)
 {
-	if (! gConfig.defines(param)) { return NULL; }
-	string result = gConfig.getStr(param);
-	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so check for that.
-	return result.size() ? result.c_str() : NULL;
+	// (pat) The "unconfig" command does not remove the value, it just gives it an empty value, so the caller checks for that.
+	return gConfig.defines(param) ? gConfig.getStr(param) : string("");
 }
 
 // Set all the Log.Group debug levels based on database settings
@@ -387,7 +385,8 @@ void LogGroup::setAll()
 		{
 		string param = groupprefix + mGroupNames[g];
 		int level = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(param)) {
+		string levelName = getNonEmptyStrIfDefined(param);
+		if (levelName.size()) {
 			level = lookupLevel2(param,levelName);
 		}
 		mDebugLevel[g] = level;
@@ -396,7 +395,8 @@ void LogGroup::setAll()
 		{
 		string watchparam = watchprefix + mGroupNames[g];
 		int watchlevel = 0;
-		if (const char*levelName = getNonEmptyStrIfDefined(watchparam)) {
+		string levelName = getNonEmptyStrIfDefined(watchparam);
+		if (levelName.size()) {
 			watchlevel = lookupLevel2(watchparam,levelName);
 		}
 		mWatchLevel[g] = watchlevel;
-- 
2.43.0


From cafccce485f5fd43989ea3eda08d268e25b6ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 33/50] fix: sqlite helpers quote caller data in the SQL they
 build, and do not cut it off

---
 sqlite3util.cpp | 62 ++++++++++++++++++++++++-------------------------
 sqlite3util.h   |  2 ++
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index b7ebd43..83c1109 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -30,6 +30,7 @@
 #include <string.h>
 #include <unistd.h>
 #include <stdio.h>
+#include <stdarg.h>
 
 #include <string>
 #include <vector>
@@ -46,6 +47,17 @@ const char* enableWAL = {
 	"PRAGMA journal_mode=WAL"
 };
 
+string sqlite_format(const char *fmt, ...)
+{
+	va_list ap;
+	va_start(ap,fmt);
+	char *text = sqlite3_vmprintf(fmt,ap);
+	va_end(ap);
+	string result(text ? text : "");
+	sqlite3_free(text);
+	return result;
+}
+
 int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* query, unsigned retries)
 {
         int src = SQLITE_BUSY;
@@ -85,20 +97,17 @@ int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries)
 	return src;
 }
 
-// condition buffer is size 100 minimum.
-static const unsigned sqlBufferSize = 100;
-static const char *condition_c(char *resultBuffer,const char *keyName, const char*keyValue)
+static string condition_c(const char *keyName,const char*keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == '%s'",keyName,keyValue);
-	return resultBuffer;
+	return sqlite_format("WHERE %s == '%q'",keyName,keyValue);
 }
 
-static const char *condition_u(char *resultBuffer,const char *keyName, unsigned keyValue)
+static string condition_u(const char *keyName, unsigned keyValue)
 {
-	snprintf(resultBuffer,sqlBufferSize,"WHERE %s == %u",keyName,keyValue);
-	return resultBuffer;
+	return sqlite_format("WHERE %s == %u",keyName,keyValue);
 }
 
+
 void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultColumns, const char*condition)
 {
 	int retries = 5;
@@ -108,7 +117,7 @@ void sqlQuery::queryStart(sqlite3*db, const char *tableName,const char *resultCo
 	//char query[stringSize];
 	//snprintf(query,stringSize,"SELECT %s FROM %s %s",resultColumns,tableName,condition);
 	// We save the query in a string so the caller can print it out in error messages if the query fails.
-	mQueryString = format("SELECT %s FROM %s %s",resultColumns,tableName,condition);
+	mQueryString = sqlite_format("SELECT %s FROM %s %s",resultColumns,tableName,condition);
 	// Prepare the statement.
 	if (sqlite3_prepare_statement(mdb,&mStmt,mQueryString.c_str(),retries)) { mStmt = NULL; return; }
 	// Read the result.
@@ -132,14 +141,12 @@ sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,c
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, unsigned keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_u(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_u(keyName,keyData).c_str());
 }
 
 sqlQuery::sqlQuery(sqlite3*db, const char *tableName,const char *resultColumns,const char *keyName, const char *keyData)
 {
-	char conditionBuffer[sqlBufferSize];
-	queryStart(db,tableName,resultColumns,condition_c(conditionBuffer,keyName,keyData));
+	queryStart(db,tableName,resultColumns,condition_c(keyName,keyData).c_str());
 }
 
 sqlQuery::~sqlQuery()
@@ -166,12 +173,10 @@ sqlite3_int64 sqlQuery::getResultInt(int colNum)
 bool sqlite3_exists(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT * FROM %s WHERE %s == \"%s\"",tableName,keyName,keyData);
+	string query = sqlite_format("SELECT * FROM %s WHERE %s == '%q'",tableName,keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	sqlite3_finalize(stmt);
@@ -185,12 +190,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char *tableName,
 		const char* keyName, const char* keyData,
 		const char* valueName, unsigned &valueData, unsigned retries)
 {
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	sprintf(query,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = sqlite_format("SELECT %s FROM %s WHERE %s == '%q'",valueName,tableName,keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -317,12 +320,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, char* &valueData, unsigned retries)
 {
 	valueData=NULL;
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + strlen(keyData);
-	char query[stringSize];
-	snprintf(query,stringSize,"SELECT %s FROM %s WHERE %s == \"%s\"",valueName,tableName,keyName,keyData);
+	string query = sqlite_format("SELECT %s FROM %s WHERE %s == '%q'",valueName,tableName,keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -342,12 +343,10 @@ bool sqlite3_single_lookup(sqlite3* DB, const char* tableName,
 		const char* valueName, char* &valueData, unsigned retries)
 {
 	valueData=NULL;
-	size_t stringSize = 100 + strlen(valueName) + strlen(tableName) + strlen(keyName) + 20;
-	char query[stringSize];
-	sprintf(query,"SELECT %s FROM %s WHERE %s == %u",valueName,tableName,keyName,keyData);
+	string query = sqlite_format("SELECT %s FROM %s WHERE %s == %u",valueName,tableName,keyName,keyData);
 	// Prepare the statement.
 	sqlite3_stmt *stmt;
-	if (sqlite3_prepare_statement(DB,&stmt,query,retries)) return false;
+	if (sqlite3_prepare_statement(DB,&stmt,query.c_str(),retries)) return false;
 	// Read the result.
 	int src = sqlite3_run_query(DB,stmt,retries);
 	bool retVal = false;
@@ -370,9 +369,8 @@ bool sqlite_set_attr(sqlite3*db,const char *attr_name,const char*attr_value)
 		_LOG(WARNING) << "Could not create ATTR_TABLE in database file ";// <<(fn?fn:"");
 		return false;
 	}
-	char query[100];
-	snprintf(query,100,"REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%s','%s')",attr_name,attr_value);
-	if (! sqlite3_command(db,query)) {
+	string query = sqlite_format("REPLACE INTO ATTR_TABLE (ATTR_NAME,ATTR_VALUE) VALUES('%q','%q')",attr_name,attr_value);
+	if (! sqlite3_command(db,query.c_str())) {
 		// (mike) 2014-06: to free ourselves of the in-tree sqlite3 code, the system library must be used.
 		//        However, sqlite3_db_filename is not available in Ubuntu 12.04. Removing dependence for now.
 		//const char *fn = sqlite3_db_filename(db,"main");
diff --git a/sqlite3util.h b/sqlite3util.h
index bc14318..406a6e0 100644
--- a/sqlite3util.h
+++ b/sqlite3util.h
@@ -64,6 +64,8 @@ class sqlQuery {
 };
 
 // (pat) These functions should probably not begin with "sqlite3_" since that is reserved for sqlite3 itself...
+/** Build SQL text with sqlite3_mprintf: put caller data in as '%q' (quotes doubled), the text is never cut off. */
+std::string sqlite_format(const char *fmt, ...);
 int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* query, unsigned retries = 5);
 
 int sqlite3_run_query(sqlite3* DB, sqlite3_stmt *stmt, unsigned retries = 5);
-- 
2.43.0


From 8ae2df2299bff3126dc724245dd31dca2fc43230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 34/50] fix: configuration keys, values and comments are quoted
 in SQL text

---
 Configuration.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/Configuration.cpp b/Configuration.cpp
index b72b024..b522edf 100644
--- a/Configuration.cpp
+++ b/Configuration.cpp
@@ -230,9 +230,9 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 	while (mp != mSchema.end()) {
 		ss << "INSERT OR IGNORE INTO \"CONFIG\" VALUES(";
 			// name
-			ss << "'" << mp->first << "',";
+			ss << sqlite_format("'%q',",mp->first.c_str());
 			// default
-			ss << "'" << mp->second.getDefaultValue() << "',";
+			ss << sqlite_format("'%q',",mp->second.getDefaultValue().c_str());
 			// static
 			if (mp->second.isStatic()) {
 				ss << "1";
@@ -244,18 +244,15 @@ string ConfigurationTable::getDefaultSQL(const std::string& program, const std::
 			ss << "0,";
 			// description
 			const string description = mp->second.getDescription();
-			// Try to use a quote that will work: if the description contains ' quote with " else '.
-			// This is not perfect because these quotes could themselves be quoted.
-			const char * quote = string::npos != description.find('\'') ? "\"" : "'";
-			ss << quote;
+			string comment;
 			if (mp->second.getType() == ConfigurationKey::BOOLEAN) {
-				ss << "1=enabled, 0=disabled - ";
+				comment += "1=enabled, 0=disabled - ";
 			}
-			ss << mp->second.getDescription();
+			comment += description;
 			if (mp->second.isStatic()) {
-				ss << "  Static.";
+				comment += "  Static.";
 			}
-			ss << quote;
+			ss << sqlite_format("'%q'",comment.c_str());
 		ss << ");" << endl;
 		mp++;
 	}
@@ -834,7 +831,7 @@ bool ConfigurationTable::remove(const string& key)
 	ConfigurationMap::iterator where = mCache.find(key);
 	if (where!=mCache.end()) mCache.erase(where);
 	// Really remove it.
-	string cmd = "DELETE FROM CONFIG WHERE KEYSTRING=='"+key+"'";
+	string cmd = sqlite_format("DELETE FROM CONFIG WHERE KEYSTRING=='%q'",key.c_str());
 	return sqlite3_command(mDB,cmd.c_str());
 }
 
@@ -843,7 +840,7 @@ bool ConfigurationTable::remove(const string& key)
 void ConfigurationTable::find(const string& pat, ostream& os) const
 {
 	// Prepare the statement.
-	string cmd = "SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE \"%" + pat + "%\"";
+	string cmd = sqlite_format("SELECT KEYSTRING,VALUESTRING FROM CONFIG WHERE KEYSTRING LIKE '%%%q%%'",pat.c_str());
 	sqlite3_stmt *stmt;
 	if (sqlite3_prepare_statement(mDB,&stmt,cmd.c_str())) return;
 	// Read the result.
@@ -896,9 +893,10 @@ bool ConfigurationTable::set(const string& key, const string& value)
 	ScopedLock lock(mLock);
 	string cmd;
 	if (keyDefinedInSchema(key)) {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES (\"" + key + "\",\"" + value + "\",1,\'" + mSchema[key].getDescription() + "\')";
+		cmd = sqlite_format("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL,COMMENTS) VALUES ('%q','%q',1,'%q')",
+			key.c_str(),value.c_str(),mSchema[key].getDescription().c_str());
 	} else {
-		cmd = "INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES (\"" + key + "\",\"" + value + "\",1)";
+		cmd = sqlite_format("INSERT OR REPLACE INTO CONFIG (KEYSTRING,VALUESTRING,OPTIONAL) VALUES ('%q','%q',1)",key.c_str(),value.c_str());
 	}
 	
 	bool success = sqlite3_command(mDB,cmd.c_str());
-- 
2.43.0


From 6f1ab92c5d4364cf374d6f56c0e7f1a19c66ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:12 +0000
Subject: [PATCH 35/50] fix: report names are quoted in SQL text and neither
 they nor their buffers overflow

---
 Reporting.cpp | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index e371298..ce43243 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -73,9 +73,8 @@ bool ReportingTable::create(const char* paramName)
 	}
 
 	// and to the database
-	char cmd[200];
-	sprintf(cmd,"INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES (\"%s\",%ld)", paramName, time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	std::string cmd = sqlite_format("INSERT OR IGNORE INTO REPORTING (NAME,CLEAREDTIME) VALUES ('%q',%ld)", paramName, time(NULL));
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot create reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -96,9 +95,8 @@ bool ReportingTable::incr(const char* paramName)
 
 bool ReportingTable::max(const char* paramName, unsigned newVal)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME=\"%s\"", newVal, time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	std::string cmd = sqlite_format("UPDATE REPORTING SET VALUE=MAX(VALUE,%u), UPDATETIME=%ld WHERE NAME='%q'", newVal, time(NULL), paramName);
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot maximize reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -108,9 +106,8 @@ bool ReportingTable::max(const char* paramName, unsigned newVal)
 
 bool ReportingTable::clear(const char* paramName)
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME=\"%s\"", time(NULL), paramName);
-	if (!sqlite3_command(mDB,cmd)) {
+	std::string cmd = sqlite_format("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld WHERE NAME='%q'", time(NULL), paramName);
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting parameter %s, error message: %s", paramName, sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -121,9 +118,8 @@ bool ReportingTable::clear(const char* paramName)
 
 bool ReportingTable::clear()
 {
-	char cmd[200];
-	sprintf(cmd,"UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld", time(NULL));
-	if (!sqlite3_command(mDB,cmd)) {
+	std::string cmd = sqlite_format("UPDATE REPORTING SET VALUE=0, UPDATETIME=0, CLEAREDTIME=%ld", time(NULL));
+	if (!sqlite3_command(mDB,cmd.c_str())) {
 		gLogEarly(LOG_CRIT|mFacility, "cannot clear reporting table, error message: %s", sqlite3_errmsg(mDB));
 		return false;
 	}
@@ -135,7 +131,7 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 {
 	size_t sz = strlen(baseName);
 	for (unsigned i = minIndex; i<=maxIndex; i++) {
-		char name[sz+10];
+		char name[sz+12];
 		sprintf(name,"%s.%u",baseName,i);
 		if (!create(name)) return false;
 	}
@@ -144,7 +140,7 @@ bool ReportingTable::create(const char* baseName, unsigned minIndex, unsigned ma
 
 bool ReportingTable::incr(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return incr(name);
 }
@@ -152,7 +148,7 @@ bool ReportingTable::incr(const char* baseName, unsigned index)
 
 bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return max(name,newVal);
 }
@@ -160,7 +156,7 @@ bool ReportingTable::max(const char* baseName, unsigned index, unsigned newVal)
 
 bool ReportingTable::clear(const char* baseName, unsigned index)
 {
-	char name[strlen(baseName)+10];
+	char name[strlen(baseName)+12];
 	sprintf(name,"%s.%u",baseName,index);
 	return clear(name);
 }
@@ -188,13 +184,12 @@ bool ReportingTable::commit()
 	// now actually write them into the db if needed
 	if (oustandingCount > 0) {
 		Timeval timer;
-		char cmd[200];
 
 		// TODO : could wrap this in a BEGIN; COMMIT; pair to transactionize these X UPDATEs
 		mp = oustanding.begin();
 		while (mp != oustanding.end()) {
-			sprintf(cmd,"UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME=\"%s\"", mp->second, time(NULL), mp->first.c_str());
-			if (!sqlite3_command(mDB,cmd)) {
+			std::string cmd = sqlite_format("UPDATE REPORTING SET VALUE=VALUE+%u, UPDATETIME=%ld WHERE NAME='%q'", mp->second, time(NULL), mp->first.c_str());
+			if (!sqlite3_command(mDB,cmd.c_str())) {
 				LOG(CRIT) << "could not increment reporting parameter " << mp->first << ", error message: " << sqlite3_errmsg(mDB);
 				// Keep the counts for the next commit.
 				ScopedLock lock(mLock);
-- 
2.43.0


From e21ec38a2246325f61b676f7d3769301a871c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 36/50] fix: UDDSocket refuses paths that do not fit in a
 socket address

---
 Sockets.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index 8464616..1ca737d 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -337,11 +337,15 @@ void UDDSocket::open(const char* localPath)
 	size_t length = sizeof(address);
 	bzero(&address,length);
 	address.sun_family = AF_UNIX;
+	if (strlen(localPath)>=sizeof(address.sun_path)) {
+		LOG(ERR) << "socket path too long: " << localPath;
+		throw SocketError();
+	}
 	strcpy(address.sun_path,localPath);
 	unlink(localPath);
 	if (bind(mSocketFD,(struct sockaddr*)&address,length)<0) {
 		char buf[1100];
-		sprintf(buf,"bind(path %s) failed",localPath);
+		snprintf(buf,sizeof(buf),"bind(path %s) failed",localPath);
 		perror(buf);
 		devassert(0);
 		throw SocketError();
@@ -353,6 +357,10 @@ void UDDSocket::open(const char* localPath)
 void UDDSocket::destination(const char* remotePath)
 {
 	struct sockaddr_un* unAddr = (struct sockaddr_un*)mDestination;
+	if (strlen(remotePath)>=sizeof(unAddr->sun_path)) {
+		LOG(ERR) << "socket path too long: " << remotePath;
+		throw SocketError();
+	}
 	strcpy(unAddr->sun_path,remotePath);
 }
 
-- 
2.43.0


From 5f3cd2a233d20a95fdc88b1b3630a4c670111140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 37/50] fix: resolveAddress frees its copy when there is no
 port

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 1ca737d..9c45bc6 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -59,6 +59,7 @@ bool resolveAddress(struct sockaddr_in *address, const char *hostAndPort)
 	char *colon = strchr(copy,':');
 	if (!colon) {
 		LOG(WARNING) << "missing port number in:"<<hostAndPort;
+		free(copy);
 		return false;
 	}
 	*colon = '\0';
-- 
2.43.0


From 000b1dc37f1fbd02b3420ced44a53b5621680ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 38/50] fix: a socket descriptor is closed once, and only if it
 was opened

---
 Sockets.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 9c45bc6..41d9b40 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -117,6 +117,7 @@ bool resolveAddress(struct sockaddr_in *address, const char *host, unsigned shor
 
 
 DatagramSocket::DatagramSocket()
+	:mSocketFD(-1)
 {
 	memset(mDestination, 0, sizeof(mDestination));
 }
@@ -137,7 +138,9 @@ void DatagramSocket::blocking()
 
 void DatagramSocket::close()
 {
+	if (mSocketFD<0) return;
 	::close(mSocketFD);
+	mSocketFD = -1;
 }
 
 
-- 
2.43.0


From 4c4e78e20e1cf032daf58677a14136e33b449f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 39/50] fix: the pid file is created exclusively, and known to
 the exit handlers that remove it

---
 SelfDetect.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/SelfDetect.cpp b/SelfDetect.cpp
index dd99d25..d6e1c8b 100644
--- a/SelfDetect.cpp
+++ b/SelfDetect.cpp
@@ -62,15 +62,15 @@ void SelfDetect::RegisterProgram(const char *argv0)
     LOG(NOTICE) << "*** Registering program " << argv0 << " to " << buf;
 
     // first, verify we aren't already running.
-    struct stat stbuf;
-    if (stat(buf, &stbuf) >= 0)
+    // Create the file only if it does not exist yet, so two programs starting together cannot both pass.
+    FILE *fp = fopen(buf, "wx");
+    if (fp == NULL && errno == EEXIST)
     {
 	LOG(CRIT) << "*** An instance of " << p << " is already running. ";
 	LOG(CRIT) << "*** If this is not the case, deleting this file will allow " << p << " to start: " << buf << " exiting...";
 	Exit::exit(Exit::DETECTFILE);
     }
     
-    FILE *fp = fopen(buf, "w");
     if (fp == NULL)
     {
     	LOG(CRIT) << "*** Unable to create " << buf << ": " << strerror(errno) << " exiting...";
@@ -78,6 +78,9 @@ void SelfDetect::RegisterProgram(const char *argv0)
     }
     fprintf(fp, "%d\n", getpid());
     fclose(fp);
+    // The exit handlers registered below remove mFile.
+    mProg = strdup(argv0);
+    mFile = strdup(buf);
     atexit(e);
 	gSigVec.CoreName(gConfig.getStr("Core.File"), gConfig.getBool("Core.Pid"));
 	gSigVec.TarName(gConfig.getStr("Core.TarFile"), gConfig.getBool("Core.SaveFiles"));
@@ -104,8 +107,6 @@ void SelfDetect::RegisterProgram(const char *argv0)
 				break;
 		}
     }
-    mProg = strdup(argv0);
-    mFile = strdup(buf);
 }
 
 void SelfDetect::Exit(int sig)
-- 
2.43.0


From ac099bb9e9e4c030c5a3ade470a2be2ee1191605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 40/50] fix: PointerFIFO frees its nodes

---
 LinkedLists.cpp | 14 ++++++++++++++
 LinkedLists.h   |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/LinkedLists.cpp b/LinkedLists.cpp
index 94e2533..47332f8 100644
--- a/LinkedLists.cpp
+++ b/LinkedLists.cpp
@@ -30,6 +30,20 @@
 #include "LinkedLists.h"
 
 
+PointerFIFO::~PointerFIFO()
+{
+	while (mHead!=NULL) {
+		ListNode *next = mHead->next();
+		delete mHead;
+		mHead = next;
+	}
+	while (mFreeList!=NULL) {
+		ListNode *next = mFreeList->next();
+		delete mFreeList;
+		mFreeList = next;
+	}
+}
+
 void PointerFIFO::push_front(void* val)	// by pat
 {
 	// Pat added this routine for completeness, but never used or tested.
diff --git a/LinkedLists.h b/LinkedLists.h
index 0e28c63..13ccd21 100644
--- a/LinkedLists.h
+++ b/LinkedLists.h
@@ -72,6 +72,9 @@ class PointerFIFO {
 		mSize(0)
 	{}
 
+	/** Deletes the nodes; the items still inside belong to the caller. */
+	~PointerFIFO();
+
 	unsigned size() const { return mSize; }
 	unsigned totalSize() const { return 0; }	// Not used in this version.
 
@@ -92,6 +95,10 @@ class PointerFIFO {
 
 	private:
 
+	// The nodes have one owner.
+	PointerFIFO(const PointerFIFO&);
+	PointerFIFO& operator=(const PointerFIFO&);
+
 	/** Allocate a new node to extend the FIFO. */
 	ListNode *allocate();
 
-- 
2.43.0


From 1111c48c1666a95fe1e5fd6a3ad1a0d235348476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 41/50] fix: sqlite3_prepare_statement does not finalize an
 uninitialised statement

---
 sqlite3util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3util.cpp b/sqlite3util.cpp
index 83c1109..fa25f85 100644
--- a/sqlite3util.cpp
+++ b/sqlite3util.cpp
@@ -62,6 +62,7 @@ int sqlite3_prepare_statement(sqlite3* DB, sqlite3_stmt **stmt, const char* quer
 {
         int src = SQLITE_BUSY;
 
+	*stmt = NULL;	// In case there is not a single try.
 	for (unsigned i = 0; i < retries; i++) {
 		src = sqlite3_prepare_v2(DB,query,strlen(query),stmt,NULL);
 		if (src != SQLITE_BUSY && src != SQLITE_LOCKED) {
-- 
2.43.0


From f4c23db39eae33003a6c0467135665c9fcdcad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 42/50] fix: ReportingTable members are initialised, and an
 early reportShutdown is not undone

---
 Reporting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index ce43243..9fe2e75 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -39,6 +39,7 @@ static const char* createReportingTable = {
 
 
 ReportingTable::ReportingTable(const char* filename)
+	:mDB(NULL),mFacility(0),mReportRunning(true)
 {
 	gLogEarly(LOG_INFO | mFacility, "opening reporting table from path %s", filename);
 	// Connect to the database.
@@ -207,7 +208,6 @@ bool ReportingTable::commit()
 extern ReportingTable gReports;
 void* reportingBatchCommitter(void*)
 {
-	gReports.mReportRunning = true;
 	while (gReports.mReportRunning) {
 		sleep(10);
 		gReports.commit();
-- 
2.43.0


From 17d54e2ae287cc38adc7d0ea759dd1fab4efc693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 43/50] fix: Log and UnixSignal initialise all their members

---
 Logger.cpp     | 1 +
 UnixSignal.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Logger.cpp b/Logger.cpp
index 14209bb..2c99bc7 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -245,6 +245,7 @@ Log::Log(const char* name, const char* level, int facility)
 	// static class initialization since OpenBTS has so many static classes whose constructors do work (a really bad idea)
 	// and may generate log messages.
 	mDummyInit = true;
+	mPriority = LOG_DEBUG;
 	gLogInit(name, level, facility);
 }
 
diff --git a/UnixSignal.cpp b/UnixSignal.cpp
index 771b444..1fd425e 100644
--- a/UnixSignal.cpp
+++ b/UnixSignal.cpp
@@ -116,6 +116,7 @@ UnixSignal::UnixSignal(void)
 	//signal(i, _sigHandler);
     }
     mAddPid = false;
+    mSaveFiles = false;
     mCoreFile = "core";
 }
 
-- 
2.43.0


From 25820153db0fa301cb5424f9af29cc79d66cf9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 44/50] fix: an empty ConfigurationKey has defined members

---
 Configuration.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Configuration.h b/Configuration.h
index 379782d..f935586 100644
--- a/Configuration.h
+++ b/Configuration.h
@@ -429,7 +429,11 @@ class ConfigurationKey {
 		mScope(wScope)
 	{ }
 
-	ConfigurationKey()
+	ConfigurationKey():
+		mVisibility(CUSTOMER),
+		mType(STRING),
+		mIsStatic(false),
+		mScope(0)
 	{ }
 
 	const std::string& getName() const { return mName; }
-- 
2.43.0


From 44cd49a6368eb17a04783c7b2176c9a54ea7916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 45/50] fix: F16 assignment yields the assigned value

---
 F16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F16.h b/F16.h
index 374c91a..2d98c63 100644
--- a/F16.h
+++ b/F16.h
@@ -82,7 +82,7 @@ class F16 {
 	F16 operator=(const F16& other)
 	{
 		mV = other.mV;
-		return mV;
+		return *this;
 	}
 
 	F16 operator+(const F16& other) const
-- 
2.43.0


From a4df5f42f81820d7198cbe6f7959412c608da085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:22 +0000
Subject: [PATCH 46/50] fix: VectorBase::vConcat with this vector as an operand
 overran its new memory

---
 Vector.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Vector.h b/Vector.h
index 23db99f..07dd0ef 100644
--- a/Vector.h
+++ b/Vector.h
@@ -218,9 +218,15 @@ template <class T> class VectorBase
 	}
 
 	void vConcat(const VectorBase<T>&other1, const VectorBase<T>&other2) {
-		this->resize(other1.size()+other2.size());
-		memcpy(this->mStart, other1.mStart, other1.bytes());
-		memcpy(this->mStart+other1.size(), other2.mStart, other2.bytes());
+		// Copy before releasing our memory, either other may be this vector or a segment of it.
+		size_t elements1 = other1.size(), elements2 = other2.size();
+		T* data = (elements1+elements2) ? new T[elements1+elements2] : NULL;
+		if (elements1) memcpy(data, other1.mStart, other1.bytes());
+		if (elements2) memcpy(data+elements1, other2.mStart, other2.bytes());
+		this->clear();
+		mData = data;
+		mStart = data;
+		mEnd = data + elements1 + elements2;
 	}
 
 	protected:
-- 
2.43.0


From d67cc889ea3382bfa5502e6d72977e9d101e891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:32 +0000
Subject: [PATCH 47/50] fix: DatagramSocket read its source address before any
 datagram had set it

---
 Sockets.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sockets.cpp b/Sockets.cpp
index 41d9b40..fc77f9e 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -120,6 +120,7 @@ DatagramSocket::DatagramSocket()
 	:mSocketFD(-1)
 {
 	memset(mDestination, 0, sizeof(mDestination));
+	memset(mSource, 0, sizeof(mSource));
 }
 
 
-- 
2.43.0


From 1d7c5e10c1e83da23b3c48804aafe0cac6089747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:27 +0000
Subject: [PATCH 48/50] fix: F16's default constructor left the value unset

---
 F16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F16.h b/F16.h
index 2d98c63..5b1c169 100644
--- a/F16.h
+++ b/F16.h
@@ -53,7 +53,7 @@ class F16 {
 
 	public:
 
-	F16() {}
+	F16():mV(0) {}
 
 	F16(int i) { mV = i<<16; }
 	F16(float f) { mV = _f16_round(f*65536.0F); }
-- 
2.43.0


From 43bafe738bab233918043ba77ffe7495d4c62777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:22 +0000
Subject: [PATCH 49/50] fix: a timed DatagramSocket::read overran the fd_set
 with descriptors of FD_SETSIZE or more

---
 Sockets.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/Sockets.cpp b/Sockets.cpp
index fc77f9e..8f8bf3a 100644
--- a/Sockets.cpp
+++ b/Sockets.cpp
@@ -30,7 +30,9 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <cstdio>
-#include <sys/select.h>
+#include <poll.h>
+#include <time.h>
+#include <errno.h>
 
 #include "Defines.h"
 #include "Threads.h"
@@ -224,21 +226,23 @@ int DatagramSocket::read(char* buffer)
 
 int DatagramSocket::read(char* buffer, unsigned timeout)
 {
-	fd_set fds;
-	FD_ZERO(&fds);
-	FD_SET(mSocketFD,&fds);
-	struct timeval tv;
-	tv.tv_sec = timeout/1000;
-	tv.tv_usec = (timeout%1000)*1000;
-	int sel = select(mSocketFD+1,&fds,NULL,NULL,&tv);
+	// Not select(): a descriptor of FD_SETSIZE or more does not fit an fd_set.
+	struct pollfd pfd;
+	pfd.fd = mSocketFD;
+	pfd.events = POLLIN;
+	pfd.revents = 0;
+	struct timespec ts;
+	ts.tv_sec = timeout/1000;
+	ts.tv_nsec = (timeout%1000)*1000000;
+	int sel = ppoll(&pfd,1,&ts,NULL);
+	if (sel>0 && (pfd.revents & POLLNVAL)) { errno = EBADF; sel = -1; }
 	if (sel<0) {
-		perror("DatagramSocket::read() select() failed");
+		perror("DatagramSocket::read() ppoll() failed");
 		devassert(0);
 		throw SocketError();
 	}
 	if (sel==0) return -1;
-	if (FD_ISSET(mSocketFD,&fds)) return read(buffer);
-	return -1;
+	return read(buffer);
 }
 
 
-- 
2.43.0


From a990af4c2ec584bfe3dd271f37a73cde4788f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:41 +0000
Subject: [PATCH 50/50] fix: Log::get read before the level names for a
 negative priority

---
 Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Logger.cpp b/Logger.cpp
index 2c99bc7..780ce9e 100644
--- a/Logger.cpp
+++ b/Logger.cpp
@@ -252,7 +252,7 @@ Log::Log(const char* name, const char* level, int facility)
 
 ostringstream& Log::get()
 {
-	assert(mPriority<numLevels);
+	assert(mPriority>=0 && mPriority<numLevels);
 	mStream << levelNames[mPriority] <<  ' ';
 	return mStream;
 }
-- 
2.43.0

