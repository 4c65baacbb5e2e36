From 709d985c3dc7f29e17d3755704ed126f87bb240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 01/86] fix: comparing with an undefined value dereferenced a
 null pointer

---
 lube/var.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0d0764c..a918af9 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -514,6 +514,9 @@ bool var::operator !=(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // Undefined has no heap; it has the same (zero) size as an empty array
+        if (!heap() || !iVar.heap())
+            return false;
         return heap()->neq(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() != iVar.get<char>());
@@ -551,6 +554,9 @@ bool var::operator <(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        // Undefined has no heap; it's in the same place as an empty array
+        if (!heap() || !iVar.heap())
+            return size() < iVar.size();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() < iVar.get<char>());
-- 
2.43.0


From 2b52a345857c272b2cbfdbc40c0e6ba495fe3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 02/86] fix: equality of complex arrays recursed for ever and
 ignored the keys of maps

---
 lube/heap.cpp | 18 +++++++++++++++++-
 lube/var.cpp  | 18 ++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index cd160cf..612af2e 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, July 2013
  */
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 #include <stdexcept>
@@ -447,9 +448,24 @@ var& Heap::key(int iIndex)
 
 bool Heap::neq(IHeap* iHeap)
 {
-    for (int i=0; i<mSize; i++)
+    if (size() == 0)
+        return false;
+    if ((type() == TYPE_PAIR) != (iHeap->type() == TYPE_PAIR))
+        return true;
+
+    // A complex double is itself an array, so at() would never terminate
+    if ((type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE))
+        return !std::equal(
+            ptrcdouble(), ptrcdouble() + size(), iHeap->ptrcdouble()
+        );
+
+    for (int i=0; i<size(); i++)
+    {
         if (at(i) != iHeap->at(i))
             return true;
+        if ((type() == TYPE_PAIR) && (key(i) != iHeap->key(i)))
+            return true;
+    }
     return false;
 }
 
diff --git a/lube/var.cpp b/lube/var.cpp
index a918af9..76602ae 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -507,6 +507,15 @@ var& var::varderef()
  */
 bool var::operator !=(var iVar) const
 {
+    // A reference to a complex double is not an array, but its value is one
+    iVar.dereference();
+    if (type() == TYPE_CDOUBLE)
+    {
+        var v = *this;
+        v.dereference();
+        return v != iVar;
+    }
+
     if (type() != iVar.type())
         return true;
     if (size() != iVar.size())
@@ -548,6 +557,15 @@ bool var::operator !=(var iVar) const
  */
 bool var::operator <(var iVar) const
 {
+    // A reference to a complex double is not an array, but its value is one
+    iVar.dereference();
+    if (type() == TYPE_CDOUBLE)
+    {
+        var v = *this;
+        v.dereference();
+        return v < iVar;
+    }
+
     if (type() != iVar.type())
         return (type() < iVar.type());
 
-- 
2.43.0


From 491f8673a47b022f6ca750d70df80db95a976e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 03/86] fix: ordering of arrays was not an order; keys got lost
 in maps

---
 lube/heap.cpp | 29 +++++++++++++++++++++++++----
 lube/heap.h   | 17 +++++++++++++++++
 lube/var.cpp  |  4 ++--
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 612af2e..9544468 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -470,14 +470,35 @@ bool Heap::neq(IHeap* iHeap)
 }
 
 
+/**
+ * Lexicographic comparison: the first element to differ decides; if there
+ * isn't one then the shorter array is the lesser.
+ */
 bool Heap::lt(IHeap* iHeap)
 {
-    if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
-        return (std::strcmp(ptrchar(), iHeap->ptrchar()) < 0);
-    for (int i=0; i<std::min(size(), iHeap->size()); i++)
+    int common = std::min(size(), iHeap->size());
+    if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
+    {
+        int cmp = std::memcmp(ptrchar(), iHeap->ptrchar(), common);
+        return cmp ? (cmp < 0) : (size() < iHeap->size());
+    }
+    for (int i=0; i<common; i++)
+    {
+        // A complex double is itself an array, so at() would never terminate
+        if ((type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE))
+        {
+            cdouble c1 = *ptrcdouble(i);
+            cdouble c2 = *iHeap->ptrcdouble(i);
+            if (c1 != c2)
+                return complexLess(c1, c2);
+            continue;
+        }
         if (at(i) < iHeap->at(i))
             return true;
-    return false;
+        if (iHeap->at(i) < at(i))
+            return false;
+    }
+    return (size() < iHeap->size());
 }
 
 
diff --git a/lube/heap.h b/lube/heap.h
index 7ecfd02..91ebe69 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -24,6 +24,23 @@ namespace libube
 
     class Heap;
 
+    /**
+     * Order on complex numbers: by magnitude, as would be expected, but then
+     * by the parts so that numbers on the same circle remain distinct.
+     */
+    template <class T> bool complexLess(
+        const std::complex<T>& iC1, const std::complex<T>& iC2
+    )
+    {
+        T a1 = std::abs(iC1);
+        T a2 = std::abs(iC2);
+        if (a1 != a2)
+            return a1 < a2;
+        if (iC1.real() != iC2.real())
+            return iC1.real() < iC2.real();
+        return iC1.imag() < iC2.imag();
+    }
+
     /**
      * Heap interface
      */
diff --git a/lube/var.cpp b/lube/var.cpp
index 76602ae..3acfa47 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -587,9 +587,9 @@ bool var::operator <(var iVar) const
     case TYPE_DOUBLE:
         return (get<double>() < iVar.get<double>());
     case TYPE_CFLOAT:
-        return (std::abs(get<cfloat>()) < std::abs(iVar.get<cfloat>()));
+        return complexLess(get<cfloat>(), iVar.get<cfloat>());
     case TYPE_CDOUBLE:
-        return (std::abs(get<cdouble>()) < std::abs(iVar.get<cdouble>()));
+        return complexLess(get<cdouble>(), iVar.get<cdouble>());
     default:
         throw error("operator <(): Unknown type");
     }
-- 
2.43.0


From 3b6c9e8dbb6924ba35b6f7fb01126f7b943faf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 04/86] fix: copying a complex array threw

---
 lube/heap.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 9544468..62ee83a 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -298,6 +298,12 @@ void Heap::copy(const Heap* iHeap, int iSize)
     case TYPE_DOUBLE:
         memcpy(mData.dp, iHeap->mData.dp, mSize*sizeof(double));
         break;
+    case TYPE_CFLOAT:
+        std::copy_n(iHeap->mData.cfp, mSize, mData.cfp);
+        break;
+    case TYPE_CDOUBLE:
+        std::copy_n(iHeap->mData.cdp, mSize, mData.cdp);
+        break;
     case TYPE_VAR:
         for (int i=0; i<mSize; i++)
             mData.vp[i] = iHeap->mData.vp[i];
-- 
2.43.0


From 875d32bb098debd7a61b965ac624aaedde3955da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 05/86] fix: complex elements lost their imaginary part when
 assigned

---
 lube/var.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3acfa47..491366c 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -667,6 +667,20 @@ ind var::atype() const
 }
 
 
+/*
+ * Complex values lose the imaginary part when cast to something real, but not
+ * when cast to another complex type.
+ */
+template <class T, class C> struct ComplexCast
+{
+    static T cast(C iC) { return static_cast<T>(iC.real()); };
+};
+template <class T, class C> struct ComplexCast< std::complex<T>, C >
+{
+    static std::complex<T> cast(C iC) { return std::complex<T>(iC); };
+};
+
+
 template <class T>
 void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
@@ -713,10 +727,10 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
         oVar = static_cast<T>(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        oVar = static_cast<T>(iVar.get<cfloat>().real());
+        oVar = ComplexCast<T, cfloat>::cast(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        oVar = static_cast<T>(iVar.get<cdouble>().real());
+        oVar = ComplexCast<T, cdouble>::cast(iVar.get<cdouble>());
         break;
     default:
         throw error("Cast::operator(): Unknown type");
-- 
2.43.0


From 55bcb7e254f7a09096f4d55eba973ff2452ec057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 06/86] fix: a failed allocation left a heap with a size it did
 not have, or leaked it

---
 lube/heap.cpp | 15 +++++++--------
 lube/var.cpp  | 18 +++++++++++++-----
 lube/view.cpp |  8 ++++----
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 62ee83a..3786673 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -53,12 +53,13 @@ Heap::Heap()
  * Destructor
  *
  * The dtor should be called when the reference count hits zero.  So
- * the refcount should already be zero here.  The memory will have
- * been freed by the dealloc().
+ * the refcount should already be zero here.  It is also called when a
+ * constructor throws, in which case nothing was ever attached.
  */
 Heap::~Heap()
 {
     assert(!mRefCount);
+    dealloc(mData);
 }
 
 
@@ -216,10 +217,7 @@ int Heap::detach()
     assert(mRefCount > 0);
     int count = --mRefCount;
     if (count == 0)
-    {
-        dealloc(mData);
         delete this;
-    }
     return count;
 }
 
@@ -227,7 +225,7 @@ void Heap::resize(int iSize)
 {
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
-    mSize = iSize;
+    int size = iSize;
 
     // strings have an extra '\0'
     if (mType == TYPE_CHAR)
@@ -237,8 +235,9 @@ void Heap::resize(int iSize)
     if (mCapacity == 0)
     {
         // Allocate
-        mCapacity = allocSize(iSize);
-        alloc(mCapacity);
+        int newSize = allocSize(iSize);
+        alloc(newSize);
+        mCapacity = newSize;
     }
 
     // Allocated
diff --git a/lube/var.cpp b/lube/var.cpp
index 491366c..3f9a270 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -325,7 +325,11 @@ var& var::operator =(var iVar)
     }
     else
     {
-        // Not a reference.  Record whether the old value was a heap
+        // Not a reference.  If the new value is one then get the value it
+        // refers to; that can throw, so do it before changing anything.
+        iVar.dereference();
+
+        // Record whether the old value was a heap
         // allocation. If so, detach it after attaching the new value.
         IHeap* tmp = ((mType == TYPE_ARRAY) && mData.hp) ? mData.hp : 0;
         mData = iVar.mData;
@@ -333,7 +337,6 @@ var& var::operator =(var iVar)
         attach();
         if (tmp)
             detach(tmp);
-        dereference();
     }
     return *this;
 }
@@ -942,8 +945,9 @@ var& var::array()
     if (!v.heap())
     {
         var tmp = v;
+        IHeap* h = new Heap(1, tmp.mType);
         v.mType = TYPE_ARRAY;
-        v.attach(new Heap(1, tmp.mType));
+        v.attach(h);
         v.at(0) = tmp;
     }
     return *this;
@@ -969,8 +973,9 @@ var& var::resize(int iSize)
             else
             {
                 var tmp = v;
+                IHeap* h = new Heap(iSize, tmp.mType);
                 v.mType = TYPE_ARRAY;
-                v.attach(new Heap(iSize, tmp.mType));
+                v.attach(h);
                 v.at(0) = tmp;
             }
         }
@@ -1327,6 +1332,9 @@ var& var::dereference()
         int index = ~mType;
         ind type = mData.hp->type();
         IHeap* tmp = mData.hp;
+        IHeap* h = 0;
+        if (type == TYPE_CDOUBLE)
+            h = new Heap(1, mData.hp->ptrcdouble(index));
         mType = type;
         switch (type)
         {
@@ -1350,7 +1358,7 @@ var& var::dereference()
             break;
         case TYPE_CDOUBLE:
             mType = TYPE_ARRAY;
-            attach(new Heap(1, mData.hp->ptrcdouble(index)));
+            attach(h);
             break;
         default:
             throw error("var::dereference(): Unknown type");
diff --git a/lube/view.cpp b/lube/view.cpp
index 551b9f8..6a7506c 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -36,14 +36,14 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 /* This is a constructor, not a copy constructor */
 View::View(IHeap* iHeap) : Heap()
 {
-    // If we're given a view, bypass it to get to the underlying heap
-    mHeap = iHeap->view() ? iHeap->view() : reinterpret_cast<Heap*>(iHeap);
-    mHeap->attach();
-
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
     resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
+
+    // If we're given a view, bypass it to get to the underlying heap
+    mHeap = iHeap->view() ? iHeap->view() : reinterpret_cast<Heap*>(iHeap);
+    mHeap->attach();
 }
 
 
-- 
2.43.0


From 259e076472ef65f10e4fe67bf7d1741fe09de49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 07/86] fix: shrinking an array kept the values cut off;
 unshift then leaked them

---
 lube/heap.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 3786673..4ff2897 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -263,6 +263,20 @@ void Heap::resize(int iSize)
         }
     }
 
+    // Let go of whatever is beyond the new end
+    if (mType == TYPE_VAR)
+        for (int i=size; i<mSize; i++)
+            mData.vp[i].clear();
+    else if (mType == TYPE_PAIR)
+        for (int i=size; i<mSize; i++)
+        {
+            mData.pp[i].key.clear();
+            mData.pp[i].val.clear();
+        }
+
+    // Nothing more can fail, so the size can change
+    mSize = size;
+
     // Put in the null terminator
     if (mType == TYPE_CHAR)
         mData.cp[mSize] = 0;
-- 
2.43.0


From 20acc2806664f4096bac23c527830c54d4208069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 08/86] fix: taking from an empty array and indexing outside it
 corrupted memory

---
 lube/heap.cpp |  3 +++
 lube/var.cpp  | 26 ++++++++++++++++++--------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 4ff2897..690fce5 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -532,6 +532,9 @@ var Heap::shift()
     // var and pair use placement delete on the overwritten element (to delete
     // it) and placement new on the exposed one (to reset it, rather than
     // actually construct a new one).
+    if (mSize == 0)
+        throw std::range_error("Heap::shift(): nothing to shift");
+
     var r;
     switch (mType)
     {
diff --git a/lube/var.cpp b/lube/var.cpp
index 3f9a270..58abe28 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -871,14 +871,16 @@ var var::at(var iVar) const
 {
     if (!defined())
         throw error("var::at(): uninitialised");
-    else
-        if (heap() && !atype<pair>())
-            throw error("operator [var]: Not a map");
+    if (!heap() || !atype<pair>())
+        throw error("var::at(): Not a map");
 
-    int index = binary(iVar);
-    if ( (index >= size()) || (heap()->key(index) != iVar) )
+    // As in at(int), a reference would be to the array this is an element of
+    var v = *this;
+    v.dereference();
+    int index = v.binary(iVar);
+    if ( (index >= v.size()) || (v.heap()->key(index) != iVar) )
         return nil;
-    return reference(index);
+    return v.reference(index);
 }
 
 
@@ -957,7 +959,8 @@ var& var::array()
 var& var::resize(int iSize)
 {
     VDEBUG(std::cout << "var::resize(" << iSize << ")" << std::endl);
-    assert(iSize >= 0);
+    if (iSize < 0)
+        throw std::range_error("var::resize(): negative size");
     var& v = dereference();
     if (!v.heap())
     {
@@ -1146,6 +1149,8 @@ var var::pop()
  */
 var& var::insert(var iVar, int iIndex)
 {
+    if (iIndex < 0)
+        throw std::range_error("insert(): negative index");
     if (iIndex > size())
         throw std::range_error("insert(): index too large");
 
@@ -1185,7 +1190,8 @@ var& var::insert(var iVar, int iIndex)
 
 var var::remove(int iIndex)
 {
-    assert(iIndex >= 0);
+    if (iIndex < 0)
+        throw std::range_error("remove(): negative index");
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
 
@@ -1298,6 +1304,10 @@ var var::reference(int iIndex) const
 {
     if (type() != TYPE_ARRAY)
         throw error("var::reference: cannot reference non array");
+    IHeap* h = heap();
+    if ( (iIndex < 0) || (iIndex >= size()) ||
+         (h->view() && (h->offset() + iIndex >= h->view()->size())) )
+        throw std::range_error("var::reference: index out of bounds");
     var v(*this);
     v.mType = -iIndex-1;
     return v;
-- 
2.43.0


From 7432035ededa76afd587330f77d4204363ba0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 09/86] fix: unshift read the value as the wrong type, or after
 it had moved

---
 lube/heap.cpp | 47 +++++++++++++++++++++++++++++++++++++++--------
 lube/var.cpp  |  1 +
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 690fce5..236a20f 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -593,38 +593,69 @@ var Heap::shift()
  */
 void Heap::unshift(var iVar)
 {
-    resize(mSize+1);
+    // Anything that can throw, throws before the array changes.  The value may
+    // well be a reference into this array, so it has to be read first too.
+    iVar.dereference();
     switch (mType)
     {
     case TYPE_CHAR:
+    {
+        char value = iVar.cast<char>();
+        resize(mSize+1);
         memmove(mData.cp+1, mData.cp, (mSize-1)*sizeof(char));
-        mData.cp[0] = iVar.get<char>();
+        mData.cp[0] = value;
         break;
+    }
     case TYPE_INT:
+    {
+        int value = iVar.cast<int>();
+        resize(mSize+1);
         memmove(mData.ip+1, mData.ip, (mSize-1)*sizeof(int));
-        mData.ip[0] = iVar.get<int>();
+        mData.ip[0] = value;
         break;
+    }
     case TYPE_LONG:
+    {
+        long value = iVar.cast<long>();
+        resize(mSize+1);
         memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(long));
-        mData.lp[0] = iVar.get<long>();
+        mData.lp[0] = value;
         break;
+    }
     case TYPE_FLOAT:
+    {
+        float value = iVar.cast<float>();
+        resize(mSize+1);
         memmove(mData.fp+1, mData.fp, (mSize-1)*sizeof(float));
-        mData.fp[0] = iVar.get<float>();
+        mData.fp[0] = value;
         break;
+    }
     case TYPE_DOUBLE:
+    {
+        double value = iVar.cast<double>();
+        resize(mSize+1);
         memmove(mData.dp+1, mData.dp, (mSize-1)*sizeof(double));
-        mData.dp[0] = iVar.get<double>();
+        mData.dp[0] = value;
         break;
+    }
     case TYPE_CFLOAT:
+    {
+        cfloat value = iVar.cast<cfloat>();
+        resize(mSize+1);
         memmove(mData.cfp+1, mData.cfp, (mSize-1)*sizeof(cfloat));
-        mData.cfp[0] = iVar.get<cfloat>();
+        mData.cfp[0] = value;
         break;
+    }
     case TYPE_CDOUBLE:
+    {
+        cdouble value = iVar.cast<cdouble>();
+        resize(mSize+1);
         memmove(mData.cdp+1, mData.cdp, (mSize-1)*sizeof(cdouble));
-        mData.cdp[0] = iVar.get<cdouble>();
+        mData.cdp[0] = value;
         break;
+    }
     case TYPE_VAR:
+        resize(mSize+1);
         memmove(mData.vp+1, mData.vp, (mSize-1)*sizeof(var));
         new (&mData.vp[0]) var();
         mData.vp[0] = iVar;
diff --git a/lube/var.cpp b/lube/var.cpp
index 58abe28..af1e690 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1220,6 +1220,7 @@ var& var::unshift(var iVar)
         return *this;
     }
 
+    iVar.dereference();
     if (!heap())
         array();
     heap()->unshift(iVar);
-- 
2.43.0


From 91ccac4919f326d99433c45072dedabcbeb6b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 10/86] fix: operations on references used the wrong array

---
 lube/var.cpp | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index af1e690..e9bbefd 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -612,7 +612,11 @@ var var::copy(bool iAllocOnly) const
 {
     // Deref and return if there's no heap
     if (!heap())
-        return *this;
+    {
+        var v = *this;
+        v.dereference();
+        return v;
+    }
 
     // It's a heap
     var r;
@@ -951,6 +955,8 @@ var& var::array()
         v.mType = TYPE_ARRAY;
         v.attach(h);
         v.at(0) = tmp;
+        if (&v != this)
+            *this = v;
     }
     return *this;
 }
@@ -981,6 +987,8 @@ var& var::resize(int iSize)
                 v.attach(h);
                 v.at(0) = tmp;
             }
+            if (&v != this)
+                *this = v;
         }
     }
     else
@@ -1114,6 +1122,10 @@ var& var::push(var iVar)
     VDEBUG(std::cout << "push: ");
     VDEBUG(std::cout << iVar.typeOf() << " " << typeOf());
     VDEBUG(std::cout << std::endl);
+
+    // It could be a reference into the very thing that is about to change
+    iVar.dereference();
+
     if (!defined())
     {
         // Uninitialised
@@ -1137,7 +1149,9 @@ var& var::push(var iVar)
 
 var var::pop()
 {
+    // A copy of the value; at() is just a reference to it
     var r = at(size()-1);
+    r.dereference();
     resize(size()-1);
     return r;
 }
@@ -1154,6 +1168,13 @@ var& var::insert(var iVar, int iIndex)
     if (iIndex > size())
         throw std::range_error("insert(): index too large");
 
+    // The elements are about to move, so anything that depends on where they
+    // are now needs to be evaluated first
+    iVar.dereference();
+    if (iVar.heap() && heap() && (iVar.view() || iVar.is(*this)))
+        if (!atype<var>())
+            iVar = iVar.copy();
+
     if (heap() && atype<var>())
     {
         // Implies array; insert a single var
@@ -1330,11 +1351,14 @@ var& var::dereference()
     var& r = varderef();
     if (&r != this)
     {
-        // Set mType to not-a-reference, then let operator=() do the
-        // housekeeping
-        mType = 0;
-        *this = r;
-        return r;
+        // Take a copy of the handle; operator=() would mean something else if
+        // the array were a view.  If this reference was the last thing to
+        // hold the array then the original is gone too.
+        IHeap* tmp = mData.hp;
+        mData = r.mData;
+        mType = r.mType;
+        attach();
+        return detach(tmp) ? r : *this;
     }
     else
     {
-- 
2.43.0


From 0cf4a900d666f8656eb96634f419bb092b017947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 11/86] fix: insert and remove lost keys and wrote through
 views

---
 lube/var.cpp | 43 +++++++++++++++++++++++++++++++++++--------
 lube/var.h   |  1 +
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index e9bbefd..62a890b 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1180,7 +1180,7 @@ var& var::insert(var iVar, int iIndex)
         // Implies array; insert a single var
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
-            at(i) = at(i-1);
+            move(i, i-1);
         at(iIndex) = iVar;
     }
     else if (heap() && atype<pair>())
@@ -1188,19 +1188,15 @@ var& var::insert(var iVar, int iIndex)
         // Implies array; insert a single pair
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
-        {
-            heap()->key(i) = heap()->key(i-1);
-            at(i) = at(i-1);
-        }
+            move(i, i-1);
         heap()->key(iIndex) = iVar;
-        at(iIndex).clear();
     }
     else
     {
         // It's a fundamental type, insert the whole array
         resize(size()+iVar.size());
         for (int i=size()-1; i>iIndex+iVar.size()-1; i--)
-            at(i) = at(i-iVar.size());
+            move(i, i-iVar.size());
         for (int i=0; i<iVar.size(); i++)
             at(iIndex+i) = iVar[i];
     }
@@ -1209,6 +1205,37 @@ var& var::insert(var iVar, int iIndex)
 }
 
 
+/**
+ * Move an element of an array to another place in the same array.  Assigning
+ * an array to an element that is a view would copy into the view; so, other
+ * than for fundamental types, the source is left undefined and the destination
+ * is cleared beforehand.
+ */
+void var::move(int iTo, int iFrom)
+{
+    if (atype<pair>())
+    {
+        var key = heap()->key(iFrom);
+        heap()->key(iFrom).clear();
+        heap()->key(iTo).clear();
+        heap()->key(iTo) = key;
+    }
+    if (atype<pair>() || atype<var>())
+    {
+        var val = at(iFrom);
+        val.dereference();
+        at(iFrom).clear();
+        at(iTo).clear();
+        at(iTo) = val;
+    }
+    else if (atype<cdouble>())
+        // As a value it would need to be allocated
+        *heap()->ptrcdouble(iTo) = *heap()->ptrcdouble(iFrom);
+    else
+        at(iTo) = at(iFrom);
+}
+
+
 var var::remove(int iIndex)
 {
     if (iIndex < 0)
@@ -1218,7 +1245,7 @@ var var::remove(int iIndex)
 
     var r = at(iIndex).copy();
     for (int i=iIndex+1; i<size(); i++)
-        at(i-1) = at(i);
+        move(i-1, i);
     resize(size()-1);
     return r;
 }
diff --git a/lube/var.h b/lube/var.h
index 5b32b29..3b87db7 100644
--- a/lube/var.h
+++ b/lube/var.h
@@ -222,6 +222,7 @@ namespace libube
         var reference(int iIndex) const;
         int attach(IHeap* iHeap=0);
         int detach(IHeap* iHeap=0);
+        void move(int iTo, int iFrom);
         int binary(var iData) const;
     };
 
-- 
2.43.0


From f365a27f60727cf2b71b4f4cb903d091126941f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 12/86] fix: a view could be resized, or made to reach outside
 its array

---
 lube/heap.h   |  8 +++++++
 lube/view.cpp | 61 +++++++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 62 insertions(+), 7 deletions(-)

diff --git a/lube/heap.h b/lube/heap.h
index 91ebe69..4dfd437 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -241,6 +241,14 @@ namespace libube
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
         virtual bool copyable(IHeap* iHeap);
+        virtual void resize(int iSize);
+        virtual var at(int iIndex, bool iKey=false) const;
+        virtual var& key(int iIndex);
+        virtual var shift();
+        virtual void unshift(var iVar);
+        virtual var* deref(ind iIndex) {
+            return mHeap->deref(iIndex + mData.ip[0]);
+        };
         virtual int derefSize(ind iIndex) {
             return mHeap->derefSize(iIndex + mData.ip[0]);
         };
diff --git a/lube/view.cpp b/lube/view.cpp
index 6a7506c..6e38fee 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -27,7 +27,7 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     assert(iHeap.view());
     mType = TYPE_INT;
-    resize(iHeap.dim()*2+1);
+    Heap::resize(iHeap.dim()*2+1);
     mHeap = new Heap(*iHeap.view(), iAllocOnly);
     mHeap->attach();
     copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
@@ -38,7 +38,7 @@ View::View(IHeap* iHeap) : Heap()
 {
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
-    resize(1);
+    Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
 
     // If we're given a view, bypass it to get to the underlying heap
@@ -53,12 +53,20 @@ void View::setStrides(int iDim)
     if (iDim < 1)
         throw error("View::setStrides(): view must have dim > 0");
 
+    if (mData.ip[0] < 0)
+        throw error("View::setStrides(): negative offset");
+    for (int i=0; i<iDim; i++)
+        if (mData.ip[i*2+1] < 0)
+            throw error("View::setStrides(): negative dimension");
+
     // The second of each pair is the stride
-    int p = 1;
+    long p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
         mData.ip[i*2+2] = p;
         p *= mData.ip[i*2+1];
+        if (p > mHeap->size())
+            throw error("View::setStrides(): Array too small for view");
     }
 
     // the p that drops out should be the overall size
@@ -71,7 +79,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     : View(iHeap)
 {
     int dim = iList.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -93,7 +101,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
 View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
 {
     int dim = iShape.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -101,7 +109,7 @@ View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
     // First entry of each subsequent pair is the dimension
     for (int i=0; i<dim; i++)
     {
-        mData.ip[i*2+1] = iShape[i].get<int>();
+        mData.ip[i*2+1] = iShape[i].cast<int>();
         mData.ip[i*2+2] = 0;
     }
 
@@ -119,7 +127,7 @@ View::~View()
 
 int View::offset(int iOffset)
 {
-    if (iOffset + size() > mHeap->size())
+    if ((iOffset < 0) || (iOffset + size() > mHeap->size()))
         throw error("View::offset(): offset too large");
     mData.ip[0] = iOffset;
     return iOffset;
@@ -144,6 +152,45 @@ int& View::stride(int iDim) const
 }
 
 
+/*
+ * A view has the size that its shape says it has; it's not possible to change
+ * that by changing the array that describes it.
+ */
+void View::resize(int iSize)
+{
+    throw error("View::resize(): cannot resize a view");
+}
+
+
+var View::shift()
+{
+    throw error("View::shift(): cannot resize a view");
+}
+
+
+void View::unshift(var iVar)
+{
+    throw error("View::unshift(): cannot resize a view");
+}
+
+
+/* Elements are those of the heap of which it's a view */
+var View::at(int iIndex, bool iKey) const
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::at(): index out of bounds");
+    return mHeap->at(iIndex + mData.ip[0], iKey);
+}
+
+
+var& View::key(int iIndex)
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::key(): index out of bounds");
+    return mHeap->key(iIndex + mData.ip[0]);
+}
+
+
 /**
  * Normally, x = y will copy the var such that both x and y point to
  * the same Heap.  However, if x is a view, we want the data from y
-- 
2.43.0


From 08d331171427e44c9be269ad7cb00fa757d43871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:30 +0000
Subject: [PATCH 13/86] fix: a complex double, or any array of one number, was
 cast to a pointer's value

---
 lube/var.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 62a890b..d37752d 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -126,26 +126,37 @@ namespace libube
     }
 
 
+    /*
+     * To cast an array of one number (a single cdouble always is one) to a
+     * number is to cast the element.
+     */
+    static var castable(const var& iVar) {
+        if (iVar.heap() && (iVar.size() == 1) &&
+            (iVar.atype() > TYPE_CHAR) && (iVar.atype() <= TYPE_CDOUBLE))
+            return iVar.at(0);
+        return iVar;
+    }
+
     template<> char var::cast<char>() const {
-        return castChar(*this).get<char>();
+        return castChar(castable(*this)).get<char>();
     }
     template<> int var::cast<int>() const {
-        return castInt(*this).get<int>();
+        return castInt(castable(*this)).get<int>();
     }
     template<> long var::cast<long>() const {
-        return castLong(*this).get<long>();
+        return castLong(castable(*this)).get<long>();
     }
     template<> float var::cast<float>() const {
-        return castFloat(*this).get<float>();
+        return castFloat(castable(*this)).get<float>();
     }
     template<> double var::cast<double>() const {
-        return castDouble(*this).get<double>();
+        return castDouble(castable(*this)).get<double>();
     }
     template<> cfloat var::cast<cfloat>() const {
-        return castCFloat(*this).get<cfloat>();
+        return castCFloat(castable(*this)).get<cfloat>();
     }
     template<> cdouble var::cast<cdouble>() const {
-        return castCDouble(*this).get<cdouble>();
+        return castCDouble(castable(*this)).get<cdouble>();
     }
 }
 
-- 
2.43.0


From 18acd814174e26a6e4a6278cf847e207a13faf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 14/86] fix: remove moved the elements of a view before
 refusing

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index d37752d..ba79ea0 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1253,6 +1253,8 @@ var var::remove(int iIndex)
         throw std::range_error("remove(): negative index");
     if (iIndex > size()-1)
         throw std::range_error("remove(): index too large");
+    if (view())
+        throw error("remove(): cannot resize a view");
 
     var r = at(iIndex).copy();
     for (int i=iIndex+1; i<size(); i++)
-- 
2.43.0


From f420cd921c88525a4be2f9fc69a5cdcf144d1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 15/86] fix: swapping views of more than one dimension reached
 outside them

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index ae82f76..1c934fd 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -288,7 +288,7 @@ void Swap::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    int size = iVar1.size();
+    int size = iVar1.shape(-1);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From b37abd5eefdc4c641de636c1a38632a8d5ef7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 16/86] fix: broadcasting over a view without elements divided
 by zero

---
 lube/func.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 0812928..4ea4467 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -125,7 +125,7 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int dimO = oVar.dim();
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
-    int nOps = iVar.size() / stepI;
+    int nOps = stepI > 0 ? iVar.size() / stepI : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -242,7 +242,7 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? iVar1.size() / step1 : 1;
+    int nOps = cdim > 0 ? (step1 > 0 ? iVar1.size() / step1 : 0) : 1;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
 }
@@ -293,7 +293,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dimO = oVar.dim();
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
-    int nOps = iVar1.size() / step1;
+    int nOps = step1 > 0 ? iVar1.size() / step1 : 0;
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
@@ -391,7 +391,7 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
 
     // Assume that the common dimension is to be broadcast over.
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? oVar.size() / stepO : 1;
+    int nOps = cdim > 0 ? (stepO > 0 ? oVar.size() / stepO : 0) : 1;
     for (int i=0; i<nOps; i++)
     {
         var iv;
-- 
2.43.0


From ff617095615864eeb537b094a31edf5af2a9e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 17/86] fix: assigning to a view worked for float and double
 only

---
 lube/func.cpp |  6 +++++-
 lube/math.cpp | 25 ++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 4ea4467..2a01b8f 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -263,11 +263,15 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     // Call back to the unary operator
     if ((dim2 == 1) && (iVar2.size() == 1))
     {
+        // If it's an array of that type then it's the element that counts
+        bool element = iVar2.heap() && (iVar1.atype() == iVar2.atype());
+        var v2 = element ? iVar2.at(0) : iVar2;
+
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
             var tmp = oVar.at(i);
-            scalar(iVar1.at(i), iVar2, tmp);
+            scalar(iVar1.at(i), v2, tmp);
         }
         return;
     }
diff --git a/lube/math.cpp b/lube/math.cpp
index 1c934fd..7a65bd2 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -76,7 +76,7 @@ using namespace libube;
 ind type(var iVar)
 {
     ind type = iVar.type();
-    if (iVar.atype<cdouble>())
+    if (iVar.atype<cdouble>() && (iVar.size() == 1))
         type = TYPE_CDOUBLE;
     return type;
 }
@@ -268,6 +268,29 @@ void Set::vector(
             iVar1.ptr<double>(iOffset1)
         );
         break;
+    case TYPE_CHAR:
+        std::copy_n(iVar2.ptr<char>(iOffset2), size, iVar1.ptr<char>(iOffset1));
+        break;
+    case TYPE_INT:
+        std::copy_n(iVar2.ptr<int>(iOffset2), size, iVar1.ptr<int>(iOffset1));
+        break;
+    case TYPE_LONG:
+        std::copy_n(iVar2.ptr<long>(iOffset2), size, iVar1.ptr<long>(iOffset1));
+        break;
+    case TYPE_CFLOAT:
+        blas::copy(
+            size,
+            iVar2.ptr<cfloat>(iOffset2),
+            iVar1.ptr<cfloat>(iOffset1)
+        );
+        break;
+    case TYPE_CDOUBLE:
+        blas::copy(
+            size,
+            iVar2.ptr<cdouble>(iOffset2),
+            iVar1.ptr<cdouble>(iOffset1)
+        );
+        break;
     default:
         throw error("Set::vector: Unknown type");
     }
-- 
2.43.0


From e354e865fbc29578db3b4a3e34512a586fd373da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:39 +0000
Subject: [PATCH 18/86] fix: a string stream took byte 255 for its end

---
 lube/stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 3fc3b76..d27038a 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -56,7 +56,7 @@ int varbuf::uflow()
     //
     // Following stringstream, this doesn't destroy the string
     if (mInd < mVar.size())
-        return mVar[mInd++].get<char>();
+        return traits_type::to_int_type(mVar[mInd++].get<char>());
     return traits_type::eof();
 }
 
@@ -64,7 +64,7 @@ int varbuf::underflow()
 {
     // Called for reads that do not consume data if not uflow().
     if (mInd < mVar.size())
-        return mVar[mInd].get<char>();
+        return traits_type::to_int_type(mVar[mInd].get<char>());
     return traits_type::eof();
 }
 
@@ -73,7 +73,7 @@ int varbuf::pbackfail(int iInt)
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
     if (mInd > 0)
-        return mVar[--mInd].get<char>();
+        return traits_type::to_int_type(mVar[--mInd].get<char>());
     return traits_type::eof();
 }
 
-- 
2.43.0


From ac5344291700dffa6ac81a78f08c66cbe1b2bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:39 +0000
Subject: [PATCH 19/86] fix: seeking a string stream was refused or silently
 ignored

---
 lube/stream.cpp | 20 +++++++++++++++++---
 lube/var.h      |  4 ++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index d27038a..211a5fb 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -81,12 +81,26 @@ std::streampos varbuf::seekpos(
     std::streampos iPos, std::ios_base::openmode iMode
 )
 {
-    // Ignore mode for the moment
-    if (iPos < mVar.size())
-        mInd = iPos;
+    // It's only the get position that can move; writes always append
+    if ( !(iMode & std::ios_base::in) ||
+         (iPos < std::streampos(0)) || (iPos > std::streampos(mVar.size())) )
+        return std::streampos(std::streamoff(-1));
+    mInd = iPos;
     return iPos;
 }
 
+std::streampos varbuf::seekoff(
+    std::streamoff iOff, std::ios_base::seekdir iDir,
+    std::ios_base::openmode iMode
+)
+{
+    if (iDir == std::ios_base::cur)
+        iOff += mInd;
+    else if (iDir == std::ios_base::end)
+        iOff += mVar.size();
+    return seekpos(iOff, iMode);
+}
+
 varstream::varstream(class var iVar)
     : std::iostream(&mVarBuf), mVarBuf(iVar)
 {
diff --git a/lube/var.h b/lube/var.h
index 3b87db7..4273ac3 100644
--- a/lube/var.h
+++ b/lube/var.h
@@ -257,6 +257,10 @@ namespace libube
         virtual std::streampos seekpos(
             std::streampos iPos, std::ios_base::openmode iMode
         );
+        virtual std::streampos seekoff(
+            std::streamoff iOff, std::ios_base::seekdir iDir,
+            std::ios_base::openmode iMode
+        );
     private:
         var mVar; ///< The var being accessed
         int mInd; ///< The get index
-- 
2.43.0


From 30cc0f397ada64b5aa010ff10bcafb8aea182274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 20/86] fix: reading a JSON number took what follows it, and
 ignored its fraction

---
 lube/json.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index e96ff29..527370e 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -167,7 +167,7 @@ var toNumber(var iStr)
     varstream vs(iStr);
     long l;
     vs >> l;
-    if (!vs.fail())
+    if (!vs.fail() && (vs.peek() == EOF))
         return l;
 
     // Try for double
@@ -175,7 +175,7 @@ var toNumber(var iStr)
     vs.seekg(0);
     double d;
     vs >> d;
-    if (!vs.fail())
+    if (!vs.fail() && (vs.peek() == EOF))
         return d;
 
     // Failed
@@ -186,14 +186,14 @@ var JSON::doRaw(std::istream& iStream)
 {
     // Read up to a space or JSON delimiter
     var val = "";
-    char c;
-    while (iStream.get(c))
+    int c;
+    while ((c = iStream.peek()) != EOF)
     {
         if (isspace(c))
             break;
         if (strchr(",[]{}", c))
             break;
-        val.push(c);
+        val.push((char)iStream.get());
     }
 
     // These values have special meanings
-- 
2.43.0


From dcf57e6c6a161a8a485531453be707a26adf0e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 21/86] fix: JSON text that ends too early or cannot be read
 gave a partial value

---
 lube/json.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 527370e..2c4c395 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -9,6 +9,7 @@
 
 #include <istream>
 #include <cctype>
+#include <cstdio>
 #include <cstring>
 #include <cassert>
 
@@ -41,15 +42,17 @@ namespace libube
 using namespace libube;
 using namespace std;
 
-/** Find the next character after whitespace */
+/** Find the next character after whitespace; there must be one */
 char JSON::peek(std::istream& iStream)
 {
-    char c = iStream.peek();
+    int c = iStream.peek();
     while (isspace(c))
     {
         iStream.get();
         c = iStream.peek();
     }
+    if (c == EOF)
+        throw error("JSON text ends too early");
     return c;
 }
 
@@ -195,6 +198,8 @@ var JSON::doRaw(std::istream& iStream)
             break;
         val.push((char)iStream.get());
     }
+    if (iStream.bad())
+        throw error("Failed to read JSON text");
 
     // These values have special meanings
     if (val == "true")
-- 
2.43.0


From 453bc48e9ea308dddccf4aff34f08aabafe314ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 22/86] fix: JSON arrays took the type of their first element,
 and short ones were lost

---
 lube/json.cpp | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 2c4c395..8b04ecd 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -107,12 +107,44 @@ var JSON::doObject(std::istream& iStream)
             throw error("Unknown character");
         }
     }
-    return obj;
+    throw error("JSON object ends too early");
+    return nil;
+}
+
+/** Hold an array of numbers as such, if that doesn't change them */
+static var pack(var iArr)
+{
+    bool isLong = iArr.size() > 0;
+    bool isDouble = isLong;
+    for (int i=0; i<iArr.size(); i++)
+    {
+        var v = iArr.at(i);
+        v.dereference();
+        if (v.type() == TYPE_LONG)
+        {
+            // Not all longs have an exact double
+            long l = v.get<long>();
+            isDouble = isDouble && (l < (1L << 53)) && (l > -(1L << 53));
+        }
+        else
+            isLong = false;
+        if ((v.type() != TYPE_LONG) && (v.type() != TYPE_DOUBLE))
+            isDouble = false;
+    }
+    if (!isLong && !isDouble)
+        return iArr;
+    var r = isLong ? var(0L) : var(0.0);
+    r.array();
+    r.resize(iArr.size());
+    for (int i=0; i<iArr.size(); i++)
+        r[i] = iArr.at(i);
+    return r;
 }
 
 var JSON::doArray(std::istream& iStream)
 {
     var arr;
+    arr.resize(0);
     char got = iStream.get();
     if (got != '[')
         throw error("JSON array doesn't start with [");
@@ -122,7 +154,7 @@ var JSON::doArray(std::istream& iStream)
         {
         case ']':
             iStream.get();
-            return arr;
+            return pack(arr);
             break;
         case ',':
             iStream.get();
@@ -131,7 +163,8 @@ var JSON::doArray(std::istream& iStream)
             arr.push(doValue(iStream));
         }
     }
-    return arr;
+    throw error("JSON array ends too early");
+    return nil;
 }
 
 var JSON::doString(std::istream& iStream)
-- 
2.43.0


From 2e368d403cf21af52f89a6f4b612b58ff874247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 23/86] fix: a JSON key without a value, or the reverse, was
 ignored

---
 lube/json.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 8b04ecd..46cd209 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -90,18 +90,26 @@ var JSON::doObject(std::istream& iStream)
         {
         case '}':
             iStream.get();
+            if (key)
+                throw error("JSON object key has no value");
             return obj;
             break;
         case '"':
+            if (key)
+                throw error("JSON object key has no value");
             key = doString(iStream);
             break;
         case ':':
             iStream.get();
+            if (!key)
+                throw error("JSON object value has no key");
             obj[key] = doValue(iStream);
+            key = nil;
             break;
         case ',':
             iStream.get();
-            key = nil;
+            if (key)
+                throw error("JSON object key has no value");
             break;
         default:
             throw error("Unknown character");
-- 
2.43.0


From 22b43d819bf0570fb4a512f8b003bed1a07022e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 24/86] fix: quotes and backslashes in strings were written
 without escape

---
 lube/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 46cd209..b6c3b93 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -192,6 +192,7 @@ var JSON::doString(std::istream& iStream)
             switch (got)
             {
             case '\"':
+            case '\\':
                 str.push(got);
                 break;
             default:
@@ -342,7 +343,13 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
     {
     case TYPE_CHAR:
         iStream << "\"";
-        iStream << iVar.ptr<char>();
+        for (int i=0; i<iVar.size(); i++)
+        {
+            char c = *iVar.ptr<char>(i);
+            if ((c == '\"') || (c == '\\'))
+                iStream << '\\';
+            iStream << c;
+        }
         iStream << "\"";
         break;
     case TYPE_PAIR:
-- 
2.43.0


From 4c66b8f530a45921459ff41da5c1cdd524414727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 25/86] fix: complex arrays were formatted as the addresses of
 their elements

---
 lube/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index b6c3b93..bed408b 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -399,7 +399,7 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
             {
                 for (int j=0; j<iIndent+2; j++)
                     iStream << " ";
-                iStream << iVar.ptr<cdouble>(i);
+                iStream << *iVar.ptr<cdouble>(i);
                 if (i < iVar.size()-1)
                     iStream << ",";
                 iStream << "\n";
-- 
2.43.0


From bf1c8990d5cee3c33752db8a3f8e5e94152e0102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 26/86] fix: deeply nested JSON text overflowed the stack

---
 lube/json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/json.cpp b/lube/json.cpp
index bed408b..5180b30 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -27,6 +27,7 @@ namespace libube
         var operator ()(std::istream& iStream);
         void format(std::ostream& iStream, var iVar, int iIndent = 0);
     private:
+        int mDepth = 0;
         void formatArray(std::ostream& iStream, var iVar, int iIndent);
         void formatView(std::ostream& iStream, var iVar, int iIndent);
         char peek(std::istream& iStream);
@@ -58,6 +59,10 @@ char JSON::peek(std::istream& iStream)
 
 var JSON::doValue(std::istream& iStream)
 {
+    // Each level uses some of the stack
+    if (++mDepth > 1000)
+        throw error("JSON text is nested too deeply");
+
     var val;
     switch (peek(iStream))
     {
@@ -73,6 +78,7 @@ var JSON::doValue(std::istream& iStream)
     default:
         val = doRaw(iStream);
     }
+    mDepth--;
     return val;
 }
 
-- 
2.43.0


From 9a42830dfee30ca79e18b3cc4570557d4579ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 27/86] fix: reading lines gave an extra byte at the end, or
 never ended when the source failed

---
 lube/string.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb9353e..e8612f0 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -10,6 +10,7 @@
 #include <stdexcept>
 #include <locale>
 #include <cassert>
+#include <cstdio>
 #include <cstring>
 #include <cstdarg>
 
@@ -106,9 +107,12 @@ RegExFunctor::~RegExFunctor()
 var& var::getline(std::istream& iStream)
 {
     // Peek ahead to set eof if necessary, return nil if done
-    iStream.peek();
-    if (iStream.eof())
+    if (iStream.peek() == EOF)
+    {
+        if (iStream.bad())
+            throw error("var::getline(): read failed");
         return clear();
+    }
 
     // Start off as a string as an array; re-use the existing array if possible
     if (!defined() || !atype<char>())
@@ -121,9 +125,9 @@ var& var::getline(std::istream& iStream)
     int size = 63; // var adds the \0 automatically
     resize(size);
     char* str = ptr<char>();
-    while (!iStream.eof())
+    int c;
+    while ((c = iStream.get()) != EOF)
     {
-        char c = iStream.get();
         if (c == '\n') // Unix specific?  ...no, I think c++ will change it to
                        // whatever is appropriate
             break;
@@ -136,6 +140,8 @@ var& var::getline(std::istream& iStream)
         }
     }
     resize(read);
+    if (iStream.bad())
+        throw error("var::getline(): read failed");
     return *this;
 }
 
-- 
2.43.0


From c916d27126c6dfd14a2e6d40b14d06f97adab120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 28/86] fix: strip wrote to memory it had just released

---
 lube/string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index e8612f0..a25301c 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -257,6 +257,7 @@ void Strip::string(const var& iVar, var& oVar) const
     {
         oVar = "";
         oVar.resize(newSize);
+        op = oVar.ptr<char>();
         for (int i=0; i<newSize; i++)
             op[i] = ip[i+leading];
     }
-- 
2.43.0


From 83d6cd1fb8ce5e24c47467de1d9718105a0f6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 29/86] fix: an incomplete XML document was accepted, and line
 ends in tags were lost

---
 lube/xmlfile.cpp | 107 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 92 insertions(+), 15 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index c2bb25e..7e3e95d 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -7,6 +7,8 @@
  *   Phil Garner, October 2013
  */
 
+#include <cstring>
+#include <exception>
 #include <fstream>
 #include <stdexcept>
 #include <lube/module.h>
@@ -40,10 +42,13 @@ namespace libube
         void startElementHandler(const XML_Char *iName, const XML_Char **iAtts);
         void endElementHandler(const XML_Char *iName);
         void characterDataHandler(const XML_Char *iStr, int iLen);
+        template <class F> void call(F iF);
     private:
         var mVar;            ///< Var to populate during parse
         var mStack;          ///< Parse stack
         XML_Parser mParser;  ///< The expat parser
+        std::exception_ptr mException; ///< Exception from a callback
+        void feed(const char* iStr, int iLen, bool iLast=false);
         var element();
     };
 
@@ -84,6 +89,26 @@ void XMLFile::write(var iFile, var iVar)
 }
 
 
+/**
+ * Runs a callback.  Expat is C, so loses memory when an exception passes
+ * through it; the exception is kept until expat has returned.
+ */
+template <class F> void Expat::call(F iF)
+{
+    if (mException)
+        return;
+    try
+    {
+        iF(*this);
+    }
+    catch (...)
+    {
+        mException = std::current_exception();
+        XML_StopParser(mParser, XML_FALSE);
+    }
+}
+
+
 /**
  * In principle this is unnecessary; in practice it's useful to catch
  * errors (of the form "dude, you forgot to implement...").
@@ -92,13 +117,18 @@ static void DefaultHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    // DOS line ends find their way here.  Why?
-    if ((iLen == 1) && (*iStr == '\r'))
+    // White space outside of the top level element finds its way here.
+    int space = 0;
+    while (space < iLen && strchr(" \t\r\n", iStr[space]))
+        space++;
+    if (space == iLen)
         return;
 
-    var str(iLen, iStr);
-    std::cout << "expat::DefaultHandler: " << str << std::endl;
-    throw error("xmlfile: default handler called");
+    ((Expat*)iUserData)->call([&](Expat& iExpat) {
+        var str(iLen, iStr);
+        std::cout << "expat::DefaultHandler: " << str << std::endl;
+        throw error("xmlfile: default handler called");
+    });
 }
 
 
@@ -117,11 +147,34 @@ static void XmlDeclHandler(
 }
 
 
+/**
+ * Comments, processing instructions and the boundaries of CDATA sections are
+ * not part of the tree; again, handled so that the default handler doesn't.
+ */
+static void CommentHandler(void *iUserData, const XML_Char *iStr)
+{
+}
+
+
+static void ProcessingInstructionHandler(
+    void *iUserData, const XML_Char *iTarget, const XML_Char *iStr
+)
+{
+}
+
+
+static void CdataSectionHandler(void *iUserData)
+{
+}
+
+
 static void StartElementHandler(
     void *iUserData, const XML_Char *iName, const XML_Char **iAtts
 )
 {
-    return ((Expat*)iUserData)->startElementHandler(iName, iAtts);
+    ((Expat*)iUserData)->call([&](Expat& iExpat) {
+        iExpat.startElementHandler(iName, iAtts);
+    });
 }
 
 
@@ -129,7 +182,9 @@ static void EndElementHandler(
     void *iUserData, const XML_Char *iName
 )
 {
-    return ((Expat*)iUserData)->endElementHandler(iName);
+    ((Expat*)iUserData)->call([&](Expat& iExpat) {
+        iExpat.endElementHandler(iName);
+    });
 }
 
 
@@ -137,7 +192,9 @@ static void CharacterDataHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    return ((Expat*)iUserData)->characterDataHandler(iStr, iLen);
+    ((Expat*)iUserData)->call([&](Expat& iExpat) {
+        iExpat.characterDataHandler(iStr, iLen);
+    });
 }
 
 
@@ -150,11 +207,18 @@ Expat::Expat()
 {
     // Create the parser
     mParser = XML_ParserCreate(0);
+    if (!mParser)
+        throw error("xmlfile::read(): Failed to create parser");
 
     // Set the callbacks to the static functions
     XML_SetUserData(mParser, this);
     XML_SetDefaultHandler(mParser, DefaultHandler);
     XML_SetXmlDeclHandler(mParser, XmlDeclHandler);
+    XML_SetCommentHandler(mParser, CommentHandler);
+    XML_SetProcessingInstructionHandler(mParser, ProcessingInstructionHandler);
+    XML_SetCdataSectionHandler(
+        mParser, CdataSectionHandler, CdataSectionHandler
+    );
     XML_SetStartElementHandler(mParser, StartElementHandler);
     XML_SetEndElementHandler(mParser, EndElementHandler);
     XML_SetCharacterDataHandler(mParser, CharacterDataHandler);
@@ -174,16 +238,16 @@ var Expat::parse(const char* iFile)
         throw error("xmlfile::read(): Open failed");
 
     var f;
-    XML_Status s;
     while (f.getline(is))
     {
-        s = XML_Parse(mParser, f.str(), f.size(), 0);
-        if (!s)
-            throw error("xmlfile::parse(): Error!");
+        // The line end matters too, at least inside tags
+        feed(f.str(), f.size());
+        if (!is.eof())
+            feed("\n", 1);
     }
-    s = XML_Parse(mParser, f.str(), 0, 0);
-    if (!s)
-        throw error("xmlfile::parse(): Error!");
+
+    // Tell expat that it was the last line; it checks for completeness
+    feed("", 0, true);
     if (mStack.size() != 0)
         throw error("xmlfile::parse(): Short file?");
 
@@ -191,6 +255,16 @@ var Expat::parse(const char* iFile)
 }
 
 
+void Expat::feed(const char* iStr, int iLen, bool iLast)
+{
+    XML_Status s = XML_Parse(mParser, iStr, iLen, iLast);
+    if (mException)
+        std::rethrow_exception(mException);
+    if (!s)
+        throw error("xmlfile::parse(): Error!");
+}
+
+
 var Expat::element()
 {
     static var elem;
@@ -233,6 +307,9 @@ void Expat::endElementHandler(const XML_Char *iName)
 
 void Expat::characterDataHandler(const XML_Char *iStr, int iLen)
 {
+    // A line end just separates two pieces of text
+    if (iLen == 1 && *iStr == '\n')
+        return;
     var str(iLen, iStr);
     mStack.top()[DATA].push(str);
 }
-- 
2.43.0


From 5bbfc193c42533951f79fd315a0543976846c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 30/86] fix: deeply nested XML overflowed the stack

---
 lube/xmlfile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 7e3e95d..aa30e49 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -282,6 +282,11 @@ var Expat::element()
 
 void Expat::startElementHandler(const XML_Char *iName, const XML_Char **iAtts)
 {
+    // The elements of a var are released recursively; a limit keeps that
+    // from overflowing the stack
+    if (mStack.size() >= 1000)
+        throw error("xmlfile::read(): Nested too deeply");
+
     var elem = element();
     if (mStack)
         mStack.top()[DATA].push(elem);
-- 
2.43.0


From bc803da311c609790989f98778730ce37fd71fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 31/86] fix: line ends and tabs in XML attributes were written
 without escape

---
 lube/xmlfile.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index aa30e49..151e815 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -61,7 +61,7 @@ namespace libube
         void write(const char* iFile, var iVar);
     private:
         bool writeElem(std::ofstream& iOS, var iVar);
-        void escape(std::ofstream& iOS, var iVar);
+        void escape(std::ofstream& iOS, var iVar, bool iAttr=false);
     };
 
     void factory(Module** oModule, var iArg)
@@ -351,7 +351,7 @@ bool XMLWriter::writeElem(std::ofstream& iOS, var iVar)
         for (int i=0; i<attr.size(); i++)
         {
             iOS << " " << attr.key(i).str() << "=\"";
-            escape(iOS, attr[i]);
+            escape(iOS, attr[i], true);
             iOS << "\"";
         }
     if (!data)
@@ -367,7 +367,7 @@ bool XMLWriter::writeElem(std::ofstream& iOS, var iVar)
     return true;
 }
 
-void XMLWriter::escape(std::ofstream& iOS, var iVar)
+void XMLWriter::escape(std::ofstream& iOS, var iVar, bool iAttr)
 {
     const char* str = iVar.str();
     for (int i=0; i<iVar.size(); i++)
@@ -388,6 +388,18 @@ void XMLWriter::escape(std::ofstream& iOS, var iVar)
         case '"':
             iOS << "&quot;";
             break;
+        case '\r':
+            // Otherwise it would be read as a line end
+            iOS << "&#13;";
+            break;
+        case '\n':
+        case '\t':
+            // Otherwise it would be read as a space
+            if (iAttr)
+                iOS << "&#" << (int)str[i] << ";";
+            else
+                iOS.put(str[i]);
+            break;
         default:
             iOS.put(str[i]);
             break;
-- 
2.43.0


From fad4a5d7e5f4110245dc6c45ee75fe6f73261524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 32/86] fix: an XML save did not notice that writing failed

---
 lube/xmlfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 151e815..49551b0 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -334,6 +334,9 @@ void XMLWriter::write(const char* iFile, var iVar)
     if (!writeElem(os, iVar))
         throw error("xmlwriter::write(): Top level not element");
     os << std::endl;
+    os.close();
+    if (os.fail())
+        throw error("xmlwriter::write(): Write failed");
 }
 
 bool XMLWriter::writeElem(std::ofstream& iOS, var iVar)
-- 
2.43.0


From 75d21ba9132001f805e4f7505ebe34f1c9d9d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 33/86] fix: the XML element exemplar was shared between
 threads

---
 lube/xmlfile.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 49551b0..305f64a 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -267,16 +267,13 @@ void Expat::feed(const char* iStr, int iLen, bool iLast)
 
 var Expat::element()
 {
-    static var elem;
-    if (!elem)
-    {
-        // DATA first means it gets allocated in one block
-        elem[DATA] = nil;
-        elem[NAME] = nil;
-        elem[ATTR] = nil;
-        elem[TYPE] = "text";
-    }
-    return elem.copy();
+    // DATA first means it gets allocated in one block
+    var elem;
+    elem[DATA] = nil;
+    elem[NAME] = nil;
+    elem[ATTR] = nil;
+    elem[TYPE] = "text";
+    return elem;
 }
 
 
-- 
2.43.0


From ebbfcaf3a9b018e02597af96900718302726d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 34/86] fix: a text save quoted the lines and did not notice
 that writing failed

---
 lube/txtfile.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lube/txtfile.cpp b/lube/txtfile.cpp
index 404ac12..e965b5c 100644
--- a/lube/txtfile.cpp
+++ b/lube/txtfile.cpp
@@ -49,5 +49,17 @@ void txtfile::write(var iFile, var iVar)
     if (os.fail())
         throw error("txtfile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
-        os << iVar.at(i) << std::endl;
+    {
+        var line = iVar.at(i);
+        line.dereference();
+        if (line.atype<char>() && line.heap())
+            // As it is, rather than quoted
+            os.write(line.ptr<char>(), line.size());
+        else
+            os << line;
+        os << std::endl;
+    }
+    os.close();
+    if (os.fail())
+        throw error("txtfile::write(): Write failed");
 }
-- 
2.43.0


From c42fe1398e60a923cffcfffc60676bfaa2918c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 35/86] fix: stripping a string of blanks wrote outside it

---
 lube/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index a25301c..2106a58 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -242,7 +242,7 @@ void Strip::string(const var& iVar, var& oVar) const
     while ((leading < is) && (isspace(ip[leading])))
         leading++;
     int trailing = 0;
-    while ((trailing < is) && (isspace(ip[is-trailing-1])))
+    while ((trailing < is-leading) && (isspace(ip[is-trailing-1])))
         trailing++;
 
     int newSize = is - leading - trailing;
-- 
2.43.0


From d61b8f1206d188b47d9dd0c4fb029b1653487dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 36/86] fix: the exemplars of the GEDCOM reader were shared
 between threads

---
 lube/gedfile.cpp | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 4619192..c78cbb4 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -122,16 +122,13 @@ GEDCOM::GEDCOM()
  */
 var GEDCOM::individual()
 {
-    static var ind;
-    if (!ind)
-    {
-        // Build the exemplar
-        var nil;
-        ind["NAME"] = nil;
-        ind["TITL"] = nil;
-        ind["SEX"] = nil;
-    }
-    return ind.copy();
+    // Build the exemplar
+    var ind;
+    var nil;
+    ind["NAME"] = nil;
+    ind["TITL"] = nil;
+    ind["SEX"] = nil;
+    return ind;
 }
 
 
@@ -140,16 +137,13 @@ var GEDCOM::individual()
  */
 var GEDCOM::family()
 {
-    static var fam;
-    if (!fam)
-    {
-        // Build the exemplar
-        var nil;
-        fam["HUSB"] = nil;
-        fam["WIFE"] = nil;
-        fam["CHIL"] = nil;
-    }
-    return fam.copy();
+    // Build the exemplar
+    var fam;
+    var nil;
+    fam["HUSB"] = nil;
+    fam["WIFE"] = nil;
+    fam["CHIL"] = nil;
+    return fam;
 }
 
 
-- 
2.43.0


From bd5ee40748a62011292d3ee76bd3ac8f02ee5df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 37/86] fix: a GEDCOM save did nothing and reported success

---
 lube/gedfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index c78cbb4..140a350 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -430,4 +430,5 @@ var GEDCOM::read(var iFile)
 
 void GEDCOM::write(var iFile, var iVar)
 {
+    throw error("gedfile::write() Write not defined");
 }
-- 
2.43.0


From 2d0a96a5c2830879a736f1c5d5d0b24e6d19c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 38/86] fix: the GEDCOM reader ignored read errors and short
 files, lost forward references and misread nested records

---
 lube/gedfile.cpp | 160 +++++++++++++++++++++++++++++++----------------
 1 file changed, 107 insertions(+), 53 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 140a350..03258c7 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -34,7 +34,8 @@ namespace libube
         int doIndividual(int iLevel, var iInd);
         int doFamily(int iLevel, var iFam);
         int doBirth(int iLevel);
-        int doContinue(int iLevel, var iToken);
+        void doLinks();
+        var link(var iXRef);
 
         var mVar;
         std::ifstream mInStream;
@@ -153,8 +154,8 @@ int GEDCOM::readLine()
     if (line.getline(mInStream))
         mField = line.split(" ");
     else
-        std::cout << "Premature end of file" << std::endl;
-        
+        throw error("gedfile::read(): Premature end of file");
+
     int level = mField.shift().cast<int>();
     //std::cout << "[" << level << "]" << mField << std::endl;
     return level;
@@ -162,10 +163,25 @@ int GEDCOM::readLine()
 
 var GEDCOM::loadFile(var iFileName)
 {
-    mInStream.open(iFileName.str());
-    if (mInStream.fail())
-        std::cout << "Open failed" << std::endl;
-    doFile(readLine());
+    // There may be something left over from the previous file
+    mVar = nil;
+    mField = nil;
+    mIndividualMap = nil;
+    mFamilyMap = nil;
+    mInStream.clear();
+    try
+    {
+        mInStream.open(iFileName.str());
+        if (mInStream.fail())
+            throw error("gedfile::read(): Open failed");
+        doFile(readLine());
+        doLinks();
+    }
+    catch (...)
+    {
+        mInStream.close();
+        throw;
+    }
     mInStream.close();
     return mVar;
 }
@@ -180,7 +196,6 @@ bool GEDCOM::knownToken(var iToken)
 
 void GEDCOM::doFile(int iLevel)
 {
-    bool haveTrailer = false;
     int level = iLevel;
     do
     {
@@ -197,22 +212,28 @@ void GEDCOM::doFile(int iLevel)
             switch (mTokenMap[token].cast<int>())
             {
             case SUBM:
-                doSubmitter(readLine());
+                level = readLine();
+                if (level > iLevel)
+                    level = doSubmitter(level);
                 break;
             case INDI:
                 entity = individual();
                 mIndividualMap[xref] = mVar["Individual"].size();
                 mVar["Individual"].push(entity);
-                doIndividual(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doIndividual(level, entity);
                 break;
             case FAM:
                 entity = family();
                 mFamilyMap[xref] = mVar["Family"].size();
                 mVar["Family"].push(entity);
-                doFamily(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doFamily(level, entity);
                 break;
             default:
-                std::cout << "File: Unknown tag " << mField << std::endl;
+                throw error("gedfile::read(): Unknown record");
             }
         }
         else
@@ -225,18 +246,19 @@ void GEDCOM::doFile(int iLevel)
             switch (mTokenMap[token].cast<int>())
             {
             case HEAD:
-                level = doHeader(readLine());
-                continue;
+                level = readLine();
+                if (level > iLevel)
+                    level = doHeader(level);
+                break;
             case TRLR:
                 return;
             default:
-                std::cout << "File: Unknown tag " << token << std::endl;
+                throw error("gedfile::read(): Unknown record");
             }
         }
     }
     while (level >= iLevel);
-    if (!haveTrailer)
-        std::cout << "Trailer not found" << std::endl;
+    throw error("gedfile::read(): Trailer not found");
 }
 
 int GEDCOM::doHeader(int iLevel)
@@ -268,9 +290,18 @@ int GEDCOM::doIndividual(int iLevel, var iInd)
     int level = iLevel;
     do
     {
+        if (level > iLevel)
+        {
+            // It qualifies something that we don't keep
+            level = readLine();
+            continue;
+        }
         var token = mField.shift();
         if (!knownToken(token))
-            break;
+        {
+            level = readLine();
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case NAME:
@@ -295,8 +326,8 @@ int GEDCOM::doIndividual(int iLevel, var iInd)
             break;
         case CONT:
         case CONC:
-            level = doContinue(level, token);
-            continue;
+            std::cout << "Continue" << std::endl;
+            break;
         case NOTE:
             std::cout << "Note" << std::endl;
             break;
@@ -319,9 +350,18 @@ int GEDCOM::doBirth(int iLevel)
     int level = iLevel;
     do
     {
+        if (level > iLevel)
+        {
+            // It qualifies something that we don't keep
+            level = readLine();
+            continue;
+        }
         var token = mField.shift();
         if (!knownToken(token))
-            break;
+        {
+            level = readLine();
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case DATE:
@@ -332,8 +372,8 @@ int GEDCOM::doBirth(int iLevel)
             break;
         case CONT:
         case CONC:
-            level = doContinue(level, token);
-            continue;
+            std::cout << "Continue" << std::endl;
+            break;
         case NOTE:
             std::cout << "Note" << std::endl;
             break;
@@ -353,39 +393,41 @@ int GEDCOM::doFamily(int iLevel, var iFam)
     // Read family
     do
     {
+        if (level > iLevel)
+        {
+            // It qualifies something that we don't keep
+            level = readLine();
+            continue;
+        }
         var token = mField.shift();
         var indiv;
         if (!knownToken(token))
-            break;
+        {
+            level = readLine();
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case HUSB:
             indiv = mField.shift();
-            if (!mIndividualMap.at(indiv))
-                std::cout << "Missing: " << indiv << std::endl;
-            else
-                iFam["HUSB"] = mIndividualMap.at(indiv).cast<int>();
+            iFam["HUSB"] = indiv;
             break;
         case WIFE:
             indiv = mField.shift();
-            if (!mIndividualMap.at(indiv))
-                std::cout << "Missing: " << indiv << std::endl;
-            else
-                iFam["WIFE"] = mIndividualMap.at(indiv).cast<int>();
+            iFam["WIFE"] = indiv;
             break;
         case CHIL:
             indiv = mField.shift();
-            if (!mIndividualMap.at(indiv))
-                std::cout << "Missing: " << indiv << std::endl;
-            else
-                iFam["CHIL"].push(mIndividualMap.at(indiv).cast<int>());
+            iFam["CHIL"].push(indiv);
             break;
         case DIV:
             std::cout << "Div ?" << std::endl;
             break;
         case MARR:
             std::cout << "Married" << std::endl;
-            level = doBirth(readLine());
+            level = readLine();
+            if (level > iLevel)
+                level = doBirth(level);
             continue;
         default:
             std::cout << "Family: Unknown tag" << token << std::endl;
@@ -398,27 +440,39 @@ int GEDCOM::doFamily(int iLevel, var iFam)
     return level;
 }
 
-int GEDCOM::doContinue(int iLevel, var iToken)
+/*
+ * The families may precede the individuals in the file, so the cross
+ * references can only be resolved once everything has been read.
+ */
+void GEDCOM::doLinks()
 {
-    int level = iLevel;
-    do
+    if (!mFamilyMap)
+        return;
+    var families = mVar["Family"];
+    for (int i=0; i<families.size(); i++)
     {
-        std::cout << "Continue" << std::endl;
-        switch (mTokenMap[iToken].cast<int>())
+        var fam = families[i];
+        fam["HUSB"] = link(fam["HUSB"]);
+        fam["WIFE"] = link(fam["WIFE"]);
+        var children;
+        for (int j=0; j<fam["CHIL"].size(); j++)
         {
-        case CONT:
-            std::cout << "Continue" << std::endl;
-            break;
-        case CONC:
-            std::cout << "Concatenate" << std::endl;
-            break;
-        default:
-            std::cout << "Continue: Unknown tag" << iToken << std::endl;
+            var child = link(fam["CHIL"][j]);
+            if (child)
+                children.push(child);
         }
-        level = readLine();
+        fam["CHIL"] = children;
     }
-    while (level >= iLevel);
-    return level;
+}
+
+var GEDCOM::link(var iXRef)
+{
+    if (!iXRef)
+        return nil;
+    if (mIndividualMap && mIndividualMap.at(iXRef))
+        return mIndividualMap.at(iXRef).cast<int>();
+    std::cout << "Missing: " << iXRef << std::endl;
+    return nil;
 }
 
 
-- 
2.43.0


From d436d836d2dc80a86af6caed9797be2e36be41a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 39/86] fix: a graph save did not notice that opening or
 writing failed

---
 lube/graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index 16b1c1c..4dadeb5 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -82,6 +82,11 @@ private:
 void Graph::writeGraphViz(var iFileName)
 {
     std::ofstream ofs(iFileName.str(), std::ofstream::out);
+    if (ofs.fail())
+        throw error("graph::writeGraphViz(): Open failed");
     LabelWriter lw(mGraph);
     write_graphviz(ofs, mGraph, lw);
+    ofs.close();
+    if (ofs.fail())
+        throw error("graph::writeGraphViz(): Write failed");
 }
-- 
2.43.0


From 9a2e1ace393dc69e6d9887fc209bc3fc39021ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 40/86] fix: the ini reader cut values at the second delimiter

---
 lube/inifile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 6bcc125..b765652 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -58,9 +58,9 @@ var inifile::read(var iFile)
         else
         {
             // It's a 'key [=:] value' line
-            var kv = f.split("=");
+            var kv = f.split("=", 2);
             if (kv.size() < 2)
-                kv = f.split(":");
+                kv = f.split(":", 2);
             if (kv.size() < 2)
                 throw error("inifile::read(): couldn't split");
             kv[0].strip();
-- 
2.43.0


From 34ca5b7fe1179e8f8d9f0d3cbb41beb8fd19859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 41/86] fix: an ini save wrote only the section names and did
 not notice that writing failed

---
 lube/inifile.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index b765652..f42c8f4 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -77,5 +77,26 @@ void inifile::write(var iFile, var iVar)
     if (os.fail())
         throw error("inifile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
-        os << iVar.at(i) << std::endl;
+    {
+        // Entries without a section sort first
+        var section = iVar.key(i);
+        var entries = iVar.at(i);
+        if (section != "")
+            os << "[" << section.str() << "]" << std::endl;
+        for (int j=0; j<entries.size(); j++)
+        {
+            var value = entries.at(j);
+            value.dereference();
+            os << entries.key(j).str() << " = ";
+            if (value.atype<char>() && value.heap())
+                // As it is, rather than quoted
+                os << value.str();
+            else
+                os << value;
+            os << std::endl;
+        }
+    }
+    os.close();
+    if (os.fail())
+        throw error("inifile::write(): Write failed");
 }
-- 
2.43.0


From 8f6c0324a51a22320fed9ca5e2c3a1292a1f9ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:12 +0000
Subject: [PATCH 42/86] fix: sound files: header lengths were trusted, short
 files accepted, handles leaked, saves not checked, frames miscounted

---
 lube/sndfile.cpp | 188 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 164 insertions(+), 24 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 38ca37b..b1a25d2 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -7,6 +7,12 @@
  *   Phil Garner, December 2013
  */
 
+#include <climits>
+#include <cstdio>
+#include <cstring>
+#include <fstream>
+#include <string>
+
 #include <sndfile.h>
 #include <lube/module.h>
 
@@ -37,51 +43,185 @@ using namespace libube;
  * http://www.mega-nerd.com/libsndfile/api.html
  */
 
+/** Closes the file whichever way a function is left */
+struct Sound
+{
+    Sound(SNDFILE* iSnd) : snd(iSnd) {}
+    ~Sound() { if (snd) sf_close(snd); }
+    SNDFILE* snd;
+};
+
+/**
+ * A file held in memory.  libsndfile does not say whether the header, that it
+ * writes last, reached the disk; so it writes to this.
+ */
+struct Memory
+{
+    std::string data;
+    size_t pos = 0;
+    static sf_count_t length(void* iUser)
+    {
+        return ((Memory*)iUser)->data.size();
+    }
+    static sf_count_t seek(sf_count_t iOffset, int iWhence, void* iUser)
+    {
+        Memory* m = (Memory*)iUser;
+        if (iWhence == SEEK_CUR)
+            iOffset += m->pos;
+        else if (iWhence == SEEK_END)
+            iOffset += m->data.size();
+        if (iOffset < 0)
+            return -1;
+        return m->pos = iOffset;
+    }
+    static sf_count_t read(void* oPtr, sf_count_t iCount, void* iUser)
+    {
+        Memory* m = (Memory*)iUser;
+        if (m->pos >= m->data.size())
+            return 0;
+        size_t n = m->data.copy((char*)oPtr, iCount, m->pos);
+        m->pos += n;
+        return n;
+    }
+    static sf_count_t write(const void* iPtr, sf_count_t iCount, void* iUser)
+    {
+        // Called from C; it can't throw
+        Memory* m = (Memory*)iUser;
+        try
+        {
+            if (m->data.size() < m->pos + iCount)
+                m->data.resize(m->pos + iCount);
+        }
+        catch (std::exception&)
+        {
+            return 0;
+        }
+        m->data.replace(m->pos, iCount, (const char*)iPtr, iCount);
+        m->pos += iCount;
+        return iCount;
+    }
+    static sf_count_t tell(void* iUser)
+    {
+        return ((Memory*)iUser)->pos;
+    }
+};
+
+/** The size of a chunk in the file, or -1 if it is not known */
+static sf_count_t chunkSize(SNDFILE* iSnd, const char* iID)
+{
+    SF_CHUNK_INFO chunk = {};
+    strcpy(chunk.id, iID);
+    chunk.id_size = strlen(iID);
+    SF_CHUNK_ITERATOR* it = sf_get_chunk_iterator(iSnd, &chunk);
+    if (!it || sf_get_chunk_size(it, &chunk) || chunk.datalen == 0xffffffff)
+        return -1;
+    return chunk.datalen;
+}
+
+/**
+ * True if the file is shorter than it says it is.  libsndfile silently reduces
+ * the number of frames in that case.
+ */
+static bool isShort(const char* iFile, SNDFILE* iSnd, const SF_INFO& iInfo)
+{
+    if (iInfo.frames == 0)
+    {
+        // Either empty, or cut before the samples
+        std::ifstream is(iFile, std::ifstream::binary | std::ifstream::ate);
+        return is.tellg() < chunkSize(iSnd, "RIFF") + 8;
+    }
+    int width = 0;
+    switch (iInfo.format & SF_FORMAT_SUBMASK)
+    {
+    case SF_FORMAT_PCM_S8:
+    case SF_FORMAT_PCM_U8:
+    case SF_FORMAT_ULAW:
+    case SF_FORMAT_ALAW:
+        width = 1;
+        break;
+    case SF_FORMAT_PCM_16:
+        width = 2;
+        break;
+    case SF_FORMAT_PCM_24:
+        width = 3;
+        break;
+    case SF_FORMAT_PCM_32:
+    case SF_FORMAT_FLOAT:
+        width = 4;
+        break;
+    case SF_FORMAT_DOUBLE:
+        width = 8;
+        break;
+    default:
+        return false;
+    }
+    return chunkSize(iSnd, "data") / (width * iInfo.channels) > iInfo.frames;
+}
+
+
 var sndfile::read(var iFile)
 {
     // Open the file
-    SF_INFO sfInfo;
-    sfInfo.format = 0;
-    SNDFILE* snd = sf_open(iFile.str(), SFM_READ, &sfInfo);
-    if (!snd)
+    SF_INFO sfInfo = {};
+    Sound sound(sf_open(iFile.str(), SFM_READ, &sfInfo));
+    if (!sound.snd)
         throw error("sndfile::read: Failed to open file");
+    if (sf_error(sound.snd))
+        throw error("sndfile::read: Failed to read header");
 
     // Read stuff
-    mAttr["rate"] = sfInfo.samplerate;
-    int size = sfInfo.frames * sfInfo.channels;
+    if (sfInfo.frames > INT_MAX / sfInfo.channels)
+        throw error("sndfile::read: Too long");
+    if (isShort(iFile.str(), sound.snd, sfInfo))
+        throw error("sndfile::read: Short file?");
     var data = 0.0f;
-    data.resize(size);
-    int nGot = sf_readf_float(snd, data.ptr<float>(), size);
-    if (nGot != size)
+    data.array();
+    data.resize(sfInfo.frames * sfInfo.channels);
+    mAttr["rate"] = sfInfo.samplerate;
+    if (sfInfo.frames == 0)
+        return data;
+    sf_count_t nGot = sf_readf_float(
+        sound.snd, data.ptr<float>(), sfInfo.frames
+    );
+    if (nGot != sfInfo.frames || sf_error(sound.snd))
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
         // In place transpose for channels > 1
         data = data.view({(int)sfInfo.frames, sfInfo.channels}).transpose();
-    sf_close(snd);
     return data;
 }
 
 void sndfile::write(var iFile, var iVar)
 {
-    // Open the file
-    SF_INFO sfInfo;
+    // Open the file; in memory to begin with
+    SF_INFO sfInfo = {};
     sfInfo.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_FILE;
     sfInfo.samplerate = mAttr["rate"].get<int>();
     sfInfo.channels = iVar.dim() > 1 ? iVar.shape(0) : 1;
-    SNDFILE* snd = sf_open(iFile.str(), SFM_WRITE, &sfInfo);
-    if (!snd)
+    SF_VIRTUAL_IO io = {
+        Memory::length, Memory::seek, Memory::read, Memory::write, Memory::tell
+    };
+    Memory memory;
+    Sound sound(sf_open_virtual(&io, SFM_WRITE, &sfInfo, &memory));
+    if (!sound.snd)
         throw error("sndfile::write: Failed to open file");
 
     // Write stuff
-    int n;
-    if (iVar.dim() > 1)
-    {
-        var tr = transpose(iVar);
-        n = (int)sf_writef_float(snd, tr.ptr<float>(), tr.size());
-    }
-    else
-        n = (int)sf_writef_float(snd, iVar.ptr<float>(), iVar.size());
-    sf_close(snd);
-    if (iVar.size() != n)
+    var data = iVar.dim() > 1 ? transpose(iVar) : iVar;
+    sf_count_t frames = iVar.size() / sfInfo.channels;
+    sf_count_t n = sf_writef_float(sound.snd, data.ptr<float>(), frames);
+    int err = sf_error(sound.snd);
+    err |= sf_close(sound.snd);
+    sound.snd = 0;
+    if (n != frames || err)
         throw error("sndfile::write: Size fuckup");
+
+    // Now to the file proper
+    std::ofstream os(iFile.str(), std::ofstream::out | std::ofstream::binary);
+    if (os.fail())
+        throw error("sndfile::write: Failed to open file");
+    os.write(memory.data.data(), memory.data.size());
+    os.close();
+    if (os.fail())
+        throw error("sndfile::write: Failed to write file");
 }
-- 
2.43.0


From 94e03dcd582ad2158bbe16f3e97993b874dbcd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:05 +0000
Subject: [PATCH 43/86] fix: a recursive directory listing left out directories
 whose status could not be read

---
 lube/path.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lube/path.cpp b/lube/path.cpp
index 089d4b2..99323e2 100644
--- a/lube/path.cpp
+++ b/lube/path.cpp
@@ -30,6 +30,7 @@ namespace libube
         var tree();
     private:
         fs::path mPath;
+        void rdir(fs::path iPath, bool iVal, var& ioDir);
         var tree(fs::path iPath);
     };
 
@@ -80,12 +81,25 @@ var Path::rdir(bool iVal)
         return dir;
     }
 
-    fs::recursive_directory_iterator end;
-    for (fs::recursive_directory_iterator it(mPath); it != end; it++)
-        dir[it->path().string().c_str()] = iVal ? bits(it->path()) : nil;
+    rdir(mPath, iVal, dir);
     return dir;
 }
 
+/*
+ * Note that fs::recursive_directory_iterator silently skips a directory when
+ * it cannot find out that it is one.
+ */
+void Path::rdir(fs::path iPath, bool iVal, var& ioDir)
+{
+    fs::directory_iterator end;
+    for (fs::directory_iterator it(iPath); it != end; it++)
+    {
+        ioDir[it->path().string().c_str()] = iVal ? bits(it->path()) : nil;
+        if (fs::is_directory(it->symlink_status()))
+            rdir(it->path(), iVal, ioDir);
+    }
+}
+
 var Path::tree()
 {
     return tree(mPath);
-- 
2.43.0


From 327bc85aec1529a83912f61e136a073e07b092f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 44/86] fix: a URL that is not a string left a transfer handle
 behind

---
 lube/curl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/curl.cpp b/lube/curl.cpp
index 4f5a9a7..3e9381c 100644
--- a/lube/curl.cpp
+++ b/lube/curl.cpp
@@ -81,13 +81,14 @@ static size_t WriteCallback(
 Easy::Easy(var iURL)
 {
     // Initialise an easy handle
+    const char* url = iURL.str();
     mData = "";
     mHandle = curl_easy_init();
     if (!mHandle)
         throw error("curl_easy_init() failed");
 
     // Set the URL to read and a callback mechanism for the actual data
-    curl_easy_setopt(mHandle, CURLOPT_URL, iURL.str());
+    curl_easy_setopt(mHandle, CURLOPT_URL, url);
     curl_easy_setopt(mHandle, CURLOPT_WRITEFUNCTION, WriteCallback);
     curl_easy_setopt(mHandle, CURLOPT_WRITEDATA, this);
 }
-- 
2.43.0


From 2d27880eef0aac9ed118a38c8fcae32eded3a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 45/86] fix: exceptions passed through libcurl when received
 data could not be kept

---
 lube/curl.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lube/curl.cpp b/lube/curl.cpp
index 3e9381c..1417fbf 100644
--- a/lube/curl.cpp
+++ b/lube/curl.cpp
@@ -7,6 +7,8 @@
  *   Phil Garner, May 2016
  */
 
+#include <cstring>
+#include <exception>
 #include <curl/curl.h>
 #include "lube/curl.h"
 
@@ -116,7 +118,26 @@ size_t Easy::writeCallback(char* iPtr, size_t iSize, size_t iNMemb)
     // This actually involves two copies, one to str and one to mData.
     // Optimisation is a problem for future me.
     size_t s = iSize * iNMemb;
-    var str(s, iPtr);
-    mData.append(str);
+    try
+    {
+        var str(s, iPtr);
+        mData.append(str);
+    }
+    catch (std::exception&)
+    {
+        // It can't pass through C; but a short count is an error
+        return 0;
+    }
+    return s;
+}
+
+size_t Easy::headerCallback(char* iPtr, size_t iSize, size_t iNMemb)
+{
+    // The header ends with a blank line; there may be several of them
+    size_t s = iSize * iNMemb;
+    if ((s >= 5) && (strncmp(iPtr, "HTTP/", 5) == 0))
+        mHeader = false;
+    if ((s > 0) && ((*iPtr == '\r') || (*iPtr == '\n')))
+        mHeader = true;
     return s;
 }
-- 
2.43.0


From 4563546059b9d7a0ef1b8c3aa368515421561e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 46/86] fix: a response cut within its header was accepted as
 an empty document

---
 lube/curl.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lube/curl.cpp b/lube/curl.cpp
index 1417fbf..7be132a 100644
--- a/lube/curl.cpp
+++ b/lube/curl.cpp
@@ -44,9 +44,11 @@ namespace libube
         ~Easy();
         var perform();
         size_t writeCallback(char* iPtr, size_t iSize, size_t iNMemb);
+        size_t headerCallback(char* iPtr, size_t iSize, size_t iNMemb);
     private:
         CURL* mHandle;
         var mData;
+        bool mHeader;
     };
 }
 
@@ -80,11 +82,22 @@ static size_t WriteCallback(
     return ((Easy*)iUserData)->writeCallback(iPtr, iSize, iNMemb);    
 }
 
+/**
+ * The same for the header.
+ */
+static size_t HeaderCallback(
+    char* iPtr, size_t iSize, size_t iNMemb, void* iUserData
+)
+{
+    return ((Easy*)iUserData)->headerCallback(iPtr, iSize, iNMemb);
+}
+
 Easy::Easy(var iURL)
 {
     // Initialise an easy handle
     const char* url = iURL.str();
     mData = "";
+    mHeader = false;
     mHandle = curl_easy_init();
     if (!mHandle)
         throw error("curl_easy_init() failed");
@@ -93,6 +106,8 @@ Easy::Easy(var iURL)
     curl_easy_setopt(mHandle, CURLOPT_URL, url);
     curl_easy_setopt(mHandle, CURLOPT_WRITEFUNCTION, WriteCallback);
     curl_easy_setopt(mHandle, CURLOPT_WRITEDATA, this);
+    curl_easy_setopt(mHandle, CURLOPT_HEADERFUNCTION, HeaderCallback);
+    curl_easy_setopt(mHandle, CURLOPT_HEADERDATA, this);
 }
 
 Easy::~Easy()
@@ -110,6 +125,12 @@ var Easy::perform()
         var err = curl_easy_strerror(res);
         throw error(err);
     }
+
+    // The curl library does not mind if the connection ends in the header
+    char* scheme = 0;
+    curl_easy_getinfo(mHandle, CURLINFO_SCHEME, &scheme);
+    if (scheme && (strncasecmp(scheme, "http", 4) == 0) && !mHeader)
+        throw error("Connection closed before the end of the header");
     return mData;
 }
 
-- 
2.43.0


From 4fc95af9f6e24040c63312b210021c2e781069a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 47/86] fix: gnuplot: data could stay unsent or half sent
 without an error

---
 lube/gnuplot.cpp | 47 ++++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 303b06e..f9d6e3b 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -19,7 +19,7 @@ namespace libube
     public:
         gnuplot();
         ~gnuplot();
-        void puts(const char* iStr);
+        void send(const char* iStr);
         virtual var read(var iFile);
         virtual void write(var iFile, var iVar);
     private:
@@ -50,12 +50,18 @@ gnuplot::~gnuplot()
 }
 
 
-void gnuplot::puts(const char* iStr)
+void gnuplot::send(const char* iStr)
 {
+    // Once something was lost, whatever follows it would be taken for something
+    // else
+    if (std::ferror(mStream))
+        throw error("gnuplot::send(): An earlier write failed");
+
+    // Neither errors nor the text itself should wait in the buffer
     int s = std::fputs(iStr, mStream);
-    int n = std::fputs("\n", mStream);
-    if (s < 0 || n < 0)
-        throw error("gnuplot::puts(): Failed to write");
+    int f = std::fflush(mStream);
+    if (s < 0 || f != 0)
+        throw error("gnuplot::send(): Failed to write");
 }
 
 
@@ -68,15 +74,17 @@ var gnuplot::read(var iFile)
 
 void gnuplot::write(var iFile, var iVar)
 {
+    // Compose everything before sending any of it; gnuplot should not be left
+    // waiting for the rest of the data if some of it turns out to be no good.
+    varstream text;
+    text.exceptions(std::ios_base::badbit);
     var line;
     if (iFile)
     {
         // Default to whatever gnuplot's default is, but if a file is supplied
         // then write eps to it.
-        puts("set term post eps");
-        varstream vs;
-        vs << "set output " << iFile;
-        puts(vs.str());
+        text << "set term post eps\n";
+        text << "set output " << iFile << "\n";
     }
 
     // Loop over the input var assuming it's an array of vars
@@ -87,7 +95,7 @@ void gnuplot::write(var iFile, var iVar)
         {
         case TYPE_CHAR:
             // It's a string; a gnuplot command
-            puts(line.str());
+            text << line.str() << "\n";
             break;
         case TYPE_INT:
         case TYPE_LONG:
@@ -99,27 +107,19 @@ void gnuplot::write(var iFile, var iVar)
             case 1:
                 // It's a vector of some description; data for the plot
                 for (int j=0; j<line.size(); j++)
-                {
-                    varstream vs;
-                    vs << line.at(j);
-                    puts(vs.str());
-                }
-                puts("e");
+                    text << line.at(j) << "\n";
+                text << "e\n";
                 break;
             case 2:
-            {
                 // It's a matrix; write it out as a transpose
-                varstream vs;
                 for (int j=0; j<line.shape(1); j++)
                 {
                     for (int i=0; i<line.shape(0); i++)
-                        vs << " " << line(i, j);
-                    vs << "\n";
+                        text << " " << line(i, j);
+                    text << "\n";
                 }
-                puts(vs.str());
-                puts("e");
+                text << "\ne\n";
                 break;
-            }
             default:
                 throw error("gnuplot::write(): Unknown dimension");
             }
@@ -128,4 +128,5 @@ void gnuplot::write(var iFile, var iVar)
             throw error("gnuplot::write(): Unknown data type");
         }
     }
+    send(text.str());
 }
-- 
2.43.0


From 471e877ef5652c2f28a8fe7b8d98e15e94c415a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 48/86] fix: module: a library without a factory stayed loaded

---
 lube/module.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lube/module.cpp b/lube/module.cpp
index de518bd..06e29eb 100644
--- a/lube/module.cpp
+++ b/lube/module.cpp
@@ -25,6 +25,7 @@ module::module(var iType)
 
     // Open the library
     varstream lib;
+    lib.exceptions(std::ios_base::badbit);
     lib << "lib" << iType.str() << ".so";
     mHandle = dlopen(lib.str(), RTLD_LAZY);
     if ((dle = dlerror()) != NULL)
@@ -32,10 +33,21 @@ module::module(var iType)
     if (!mHandle)
         throw error("module::module(): dlopen failed");
 
-    // Find the factory function
-    *(void **)(&mFactory) = dlsym(mHandle, "factory");
-    if ((dle = dlerror()) != NULL)
-        throw error(dle);
+    // Find the factory function.  There is no destructor yet to close the library
+    // if there isn't one.
+    try
+    {
+        *(void **)(&mFactory) = dlsym(mHandle, "factory");
+        if ((dle = dlerror()) != NULL)
+            throw error(dle);
+        if (!mFactory)
+            throw error("module::module(): No factory");
+    }
+    catch (...)
+    {
+        dlclose(mHandle);
+        throw;
+    }
 }
 
 
-- 
2.43.0


From c5a7fc5e925fc19c4a3e66ae615e92e6ce66385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 49/86] fix: module: an instance was lost if memory ran out,
 and kept if it was of the wrong type

---
 lube/curl.h     |  2 +-
 lube/graph.h    |  2 +-
 lube/module.cpp | 10 ++++++++++
 lube/module.h   | 18 +++++++++++++++++-
 lube/path.h     |  2 +-
 lube/qwt.h      |  2 +-
 6 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/lube/curl.h b/lube/curl.h
index 29b90ce..22e38fa 100644
--- a/lube/curl.h
+++ b/lube/curl.h
@@ -27,7 +27,7 @@ namespace libube
     public:
         curlmodule() : module("curl") {}
         curl& create(var iArg=nil) {
-            return dynamic_cast<curl&>(module::create(iArg));
+            return createType<curl>(iArg);
         }
     };
 };
diff --git a/lube/graph.h b/lube/graph.h
index fb27623..56fe0b2 100644
--- a/lube/graph.h
+++ b/lube/graph.h
@@ -29,7 +29,7 @@ namespace libube
     public:
         graphmodule() : module("graph") {}
         graph& create(var iArg=nil) {
-            return dynamic_cast<graph&>(module::create(iArg));
+            return createType<graph>(iArg);
         }
     };
 };
diff --git a/lube/module.cpp b/lube/module.cpp
index 06e29eb..5ef6245 100644
--- a/lube/module.cpp
+++ b/lube/module.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <memory>
 #include <stdexcept>
 #include <dlfcn.h>
 
@@ -72,6 +73,15 @@ Module& module::create(var iArg)
     (*mFactory)(&inst, iArg);
     if (!inst)
         throw error("Module factory failed");
+    std::unique_ptr<Module> owner(inst);
     mInstance.push_back(inst);
+    owner.release();
     return *(mInstance.back());
 }
+
+
+void module::dropLast()
+{
+    delete mInstance.back();
+    mInstance.pop_back();
+}
diff --git a/lube/module.h b/lube/module.h
index 2a391ed..7645cbc 100644
--- a/lube/module.h
+++ b/lube/module.h
@@ -49,7 +49,23 @@ namespace libube
         virtual Module& create(var iArg=nil);
     protected:
         std::vector<Module*> mInstance; ///< Instances of module
+
+        /**
+         * Create an instance of the given type.  If it turns out to be something
+         * else it doesn't stay.
+         */
+        template <class T>
+        T& createType(var iArg) {
+            T* inst = dynamic_cast<T*>(&module::create(iArg));
+            if (!inst)
+            {
+                dropLast();
+                throw error("module::create(): Wrong type of module");
+            }
+            return *inst;
+        }
     private:
+        void dropLast();
         void (*mFactory)(Module** oModule, var iArg);
         void* mHandle;     ///< Handle for dynamic library
     };
@@ -76,7 +92,7 @@ namespace libube
     public:
         filemodule(var iType="txt") : module(iType) {}
         file& create(var iArg=nil) {
-            return dynamic_cast<file&>(module::create(iArg));
+            return createType<file>(iArg);
         }
     };
 }
diff --git a/lube/path.h b/lube/path.h
index 1c25a3a..6ec5959 100644
--- a/lube/path.h
+++ b/lube/path.h
@@ -29,7 +29,7 @@ namespace libube
     public:
         pathmodule() : module("path") {}
         path& create(var iArg=nil) {
-            return dynamic_cast<path&>(module::create(iArg));
+            return createType<path>(iArg);
         }
     };
 };
diff --git a/lube/qwt.h b/lube/qwt.h
index bf77593..cce2d66 100644
--- a/lube/qwt.h
+++ b/lube/qwt.h
@@ -30,7 +30,7 @@ namespace libube
     public:
         qwtmodule() : module("qwt") {}
         qwt& create(var iArg=nil) {
-            return dynamic_cast<qwt&>(module::create(iArg));
+            return createType<qwt>(iArg);
         }
     };
 };
-- 
2.43.0


From 168241a39eb7bd5717caa16cfdd8e748eb22419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 50/86] fix: error: crashes and leaks on oddly formed call
 stacks; messages cut when memory ran out

---
 lube/var.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index ba79ea0..e5d21b0 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1644,8 +1644,12 @@ void var::bounds(int iDim, int iIndex) const
  */
 error::error(var iVar)
 {
+    // The message has to be complete, whereas it's fine if there is not enough
+    // memory for all of the call stack
     varstream vs;
+    vs.exceptions(std::ios_base::badbit);
     vs << iVar;
+    vs.exceptions(std::ios_base::goodbit);
     backTrace(vs);
     mVar = var(vs);
     mStr = mVar.str();
@@ -1682,24 +1686,37 @@ void error::backTrace(std::ostream& iStream)
         //   file(function+offset)someotherstuff
         // We want to demangle the function name
         char* paren1 = strchr(symbol[i], '(');
-        char* paren2 = strchr(symbol[i], ')');
+        char* paren2 = paren1 ? strchr(paren1, ')') : 0;
+        if (!paren2)
+        {
+            // No function name at all
+            iStream << "\n  " << symbol[i];
+            continue;
+        }
         *paren1 = '\0';
         // Just the file, not very helpful
         //iStream << "\n  " << symbol[i] << ":\n    ";
         if (paren2 == paren1+1)
         {
             // It's an empty name
-            iStream << "(undefined)";
-            return;
+            iStream << "\n  (undefined)";
+            continue;
         }
+        *paren2 = '\0';
         char* plus = strchr(paren1+1, '+');
-        *plus = '\0';
-        buffer = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (plus)
+            *plus = '\0';
+        // The buffer may be reallocated, but is left alone upon failure
+        char* name = abi::__cxa_demangle(
+            paren1+1, buffer, &length, &status
+        );
+        if (name)
+            buffer = name;
         iStream << "\n  ";  // Indent
         switch (status)
         {
         case 0:
-            iStream << buffer;
+            iStream << name;
             break;
         case -1:
             iStream << "Memory fuckup";
-- 
2.43.0


From 4c90cfb6e7f683241e0b2979c3e12173a2e15430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:09 +0000
Subject: [PATCH 51/86] fix: element-wise functions of a map lost its keys

---
 lube/heap.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 236a20f..3d6a72f 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -76,6 +76,11 @@ Heap::Heap(const IHeap& iHeap, bool iAllocOnly) : Heap()
     resize(iHeap.size());
     if (!iAllocOnly)
         copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
+    else if (mType == TYPE_PAIR)
+        // A map without its keys is not the same shape
+        for (int i=0; i<mSize; i++)
+            mData.pp[i].key =
+                reinterpret_cast<const Heap*>(&iHeap)->mData.pp[i].key;
 }
 
 
-- 
2.43.0


From 1ccca959867785f686ceb53400b34c01a0575199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:09 +0000
Subject: [PATCH 52/86] fix: string functions of anything but strings recursed
 for ever

---
 lube/string.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index 2106a58..dd4951d 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -79,6 +79,10 @@ void StringFunctor::string(const var& iVar, var& oVar) const
  */
 void StringFunctor::broadcast(var iVar, var& oVar) const
 {
+    // Anything else would come back here
+    if ((iVar.atype() != TYPE_VAR) && (iVar.atype() != TYPE_PAIR))
+        throw error("StringFunctor::broadcast(): not a string");
+
     // This could be parallel!
     for (int i=0; i<iVar.size(); i++)
     {
-- 
2.43.0


From 162b1228cc3b0725c5d0825b3ec31c683ef64b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:09 +0000
Subject: [PATCH 53/86] fix: splitting at an empty separator never ended

---
 lube/string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index dd4951d..06056ca 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -159,6 +159,8 @@ var var::split(const char* iStr, int iMax) const
 {
     var r;
     int strLen = std::strlen(iStr);
+    if (strLen == 0)
+        throw error("var::split(): empty separator");
     const char* source = this->str();
     const char* p;
     if (iMax != 1)
-- 
2.43.0


From f10035f07226a667242ae1e69b3818b615edf6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:09 +0000
Subject: [PATCH 54/86] fix: searching in place read the string after releasing
 it

---
 lube/string.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index 06056ca..3e565f0 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -274,10 +274,13 @@ void Search::string(const var& iVar, var& oVar) const
     boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
     boost::cmatch matches;
     bool r = boost::regex_search(const_cast<var&>(iVar).str(), matches, re);
-    oVar = nil;
+
+    // The matches point into iVar, which might be oVar
+    var v;
     if (r)
         for (int i=0; i<(int)matches.size(); i++)
-            oVar[i] = matches.str(i).c_str();
+            v[i] = matches.str(i).c_str();
+    oVar = v;
 }
 
 var var::search(var iRE)
@@ -293,10 +296,13 @@ void Match::string(const var& iVar, var& oVar) const
     boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
     boost::cmatch matches;
     bool r = boost::regex_match(const_cast<var&>(iVar).str(), matches, re);
-    oVar = nil;
+
+    // The matches point into iVar, which might be oVar
+    var v;
     if (r)
         for (int i=0; i<(int)matches.size(); i++)
-            oVar[i] = matches.str(i).c_str();
+            v[i] = matches.str(i).c_str();
+    oVar = v;
 }
 
 var var::match(var iRE)
-- 
2.43.0


From f1ef2a654b2898c408a8f6e567e79d1ba8a9154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:59 +0000
Subject: [PATCH 55/86] fix: a fresh Option went on with the options of one
 left half-read

---
 lube/config.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 18ac363..d66fb09 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -16,7 +16,13 @@ using namespace libube;
 
 Option::Option()
 {
-    optind = 1; // Resets getopt.  This class should be a singleton.
+    // Resets getopt.  This class should be a singleton.  With glibc it's only
+    // zero that makes getopt forget a half-read cluster of options.
+#ifdef __GLIBC__
+    optind = 0;
+#else
+    optind = 1;
+#endif
     mArgc = 0;
     mArgv = 0;
     mOptString = "";
@@ -51,7 +57,7 @@ Option::operator bool()
 // Could we just evaluate the class in an ind context?
 ind Option::index() const
 {
-    return optind;
+    return optind ? optind : 1;
 }
 
 var Option::arg() const
@@ -67,7 +73,7 @@ var Option::arg() const
 
 var Option::args()
 {
-    return var(mArgc-optind, mArgv+optind);
+    return var(mArgc-index(), mArgv+index());
 };
 
 void Option::operator ()(char iChar, var iDescription, var iDefault)
-- 
2.43.0


From 2edea5b11e0d2ee77bb04eb7061a0e98f3c0d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:59 +0000
Subject: [PATCH 56/86] fix: option descriptions were cut when memory ran out

---
 lube/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lube/config.cpp b/lube/config.cpp
index d66fb09..002adcf 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -83,6 +83,7 @@ void Option::operator ()(char iChar, var iDescription, var iDefault)
     if (iDefault)
         mOptString.push(':');
     varstream desc;
+    desc.exceptions(std::ios_base::badbit);
     desc << " -" << iChar << " " << iDescription.str();
     if (iDefault)
         desc << " [" << iDefault << "]";
-- 
2.43.0


From e96b77ca88819ccb851daa750f483398b706b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:59 +0000
Subject: [PATCH 57/86] fix: giving a flag twice was an error

---
 lube/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 002adcf..581dbdd 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -104,7 +104,7 @@ var Option::parse(int iArgc, char** iArgv)
         var o = (char)get();
         if (o == '?')
             usage(0);
-        var a = mOpts[o] ? arg() : 1;
+        var a = optarg ? arg() : 1;
         mOpts[o] = a;
     }
     return mOpts;
-- 
2.43.0


From de57e32517e72f0eb1ca4a6f2c2d146e06461d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:59 +0000
Subject: [PATCH 58/86] fix: showing the usage before parsing crashed

---
 lube/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 581dbdd..142ba7d 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -113,7 +113,7 @@ var Option::parse(int iArgc, char** iArgv)
 void Option::usage()
 {
     std::cout
-        << mName.str() << "\n" << "Usage: " << mArgv[0];
+        << mName.str() << "\n" << "Usage: " << (mArgc > 0 ? mArgv[0] : "program");
     if (mOptString != "")
         std::cout << " -[" << mOptString.str() << "]";
     std::cout << " [args] (see 'man 3 getopt')\n";
-- 
2.43.0


From 6ad9f56724404918175731bf5cc2c9aff908f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 59/86] fix: double precision transforms did not work

---
 lube/dft-mkl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 2feb0d4..dcb3844 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -56,7 +56,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     // Set the input and output types for a forward transform
     MKL_LONG r;
-    switch (mImpl->forwardType.type())
+    switch (mImpl->forwardType.atype())
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
@@ -125,13 +125,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
     if (oVar.type() != TYPE_ARRAY)
         throw error("DFTBase::scalar: DFTBase output must be vector");
     if (iVar.atype() != (mImpl->inverse
-                         ? mImpl->inverseType.type()
-                         : mImpl->forwardType.type()
+                         ? mImpl->inverseType.atype()
+                         : mImpl->forwardType.atype()
         ))
         throw error("DFTBase::scalar: wrong input type");
     if (oVar.atype() != (mImpl->inverse
-                          ? mImpl->forwardType.type()
-                          : mImpl->inverseType.type()
+                          ? mImpl->forwardType.atype()
+                          : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
 
@@ -157,7 +157,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     }
     else
         if (mImpl->inverse)
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeBackward(
@@ -191,7 +191,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
                 throw error("DFTBase::vector(): unknown type");
             }
         else
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeForward(
-- 
2.43.0


From 089f6ad2c225747343a08a010f24e1cc2ef4dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 60/86] fix: a transform of another size reached outside its
 arrays

---
 lube/dft-mkl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index dcb3844..837b189 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -21,6 +21,7 @@ struct libube::DFTImpl
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
 };
@@ -53,6 +54,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     mImpl->handle = 0;
     mImpl->inverse = iInverse;
     mImpl->forwardType = iForwardType;
+    mImpl->iSize = iSize;
 
     // Set the input and output types for a forward transform
     MKL_LONG r;
@@ -60,6 +62,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
+        mImpl->iSize = iInverse ? iSize / 2 + 1 : iSize;
         mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
         r = DftiCreateDescriptor(
             &mImpl->handle, DFTI_SINGLE, DFTI_REAL, 1, iSize
@@ -67,6 +70,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
         break;
     case TYPE_DOUBLE:
         mImpl->inverseType = cdouble(0.0, 0.0);
+        mImpl->iSize = iInverse ? iSize / 2 + 1 : iSize;
         mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
         r = DftiCreateDescriptor(
             &mImpl->handle, DFTI_DOUBLE, DFTI_REAL, 1, iSize
@@ -134,6 +138,8 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
                           : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
+    if ((iVar.shape(-1) != mImpl->iSize) || (oVar.shape(-1) != mImpl->oSize))
+        throw error("DFTBase::scalar: wrong size");
 
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
-- 
2.43.0


From 60c07b19f83c30e81e4bf747bb2081154dc2325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 61/86] fix: a transform that could not be set up leaked

---
 lube/dft-mkl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 837b189..9fdb455 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <memory>
 #include <mkl_dfti.h>
 
 #include "lube/dft.h"
@@ -18,6 +19,7 @@
  */
 struct libube::DFTImpl
 {
+    ~DFTImpl() { if (handle) DftiFreeDescriptor(&handle); };
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
@@ -47,7 +49,9 @@ void dftiCheck(MKL_LONG iReturn)
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    // If anything throws, this deletes what is there so far
+    std::unique_ptr<DFTImpl> impl(new DFTImpl);
+    mImpl = impl.get();
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -101,12 +105,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     r = DftiCommitDescriptor(mImpl->handle);
     dftiCheck(r);
+    impl.release();
 }
 
 DFTBase::~DFTBase()
 {
-    MKL_LONG r = DftiFreeDescriptor(&mImpl->handle);
-    dftiCheck(r);
     delete mImpl;
     mImpl = 0;
 }
-- 
2.43.0


From c08b1d2ee3d4bcd02c0ca051108bdc9afcd3e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 62/86] fix: an inverse transform that failed was left without
 its scale

---
 lube/dft-mkl.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 9fdb455..e1d1682 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -103,6 +103,13 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     r = DftiSetValue(mImpl->handle, DFTI_PLACEMENT, DFTI_NOT_INPLACE);
     dftiCheck(r);
 
+    // MKL does not include the divide by N on the inverse by default
+    if (iInverse)
+    {
+        r = DftiSetValue(mImpl->handle, DFTI_BACKWARD_SCALE, 1.0 / iSize);
+        dftiCheck(r);
+    }
+
     r = DftiCommitDescriptor(mImpl->handle);
     dftiCheck(r);
     impl.release();
@@ -146,10 +153,6 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
 
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
-
-    // MKL does not include the divide by N on the inverse
-    if (mImpl->inverse)
-        oVar /= mImpl->oSize;
 }
 
 void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
-- 
2.43.0


From 5a2fadcdfc37638d18e30e6bdbc50e731a156457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 63/86] fix: functions with an output of another size reached
 outside it

---
 lube/func.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index 2a01b8f..fb2611f 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -102,6 +102,8 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     if (mDim == 0)
     {
         // This could be parallel!
+        if (iVar.heap() && (!oVar.heap() || (oVar.size() != iVar.size())))
+            throw error("UnaryFunctor::broadcast: output does not match");
         for (int i=0; i<iVar.size(); i++)
         {
             var ref = oVar.at(i);
@@ -126,6 +128,8 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
     int nOps = stepI > 0 ? iVar.size() / stepI : 0;
+    if ((nOps > 0) && (stepO*nOps != oVar.size()))
+        throw error("UnaryFunctor::broadcast: output size does not match");
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
-- 
2.43.0


From 2bf86bfa22c5826e9b238012f8ea0a49bc7b6447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 64/86] fix: swapping arrays of different shape reached outside
 them

---
 lube/func.cpp | 4 ++++
 lube/math.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index fb2611f..e395dab 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -241,6 +241,10 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int cdim = dim1 - mDim;
     if (cdim < 0)
         throw error("var::broadcast: input dimension too small");
+    for (int i=0; i<cdim; i++)
+        if ((iVar2.shape(i) != iVar1.shape(i)) ||
+            (oVar.shape(i) != iVar1.shape(i)))
+            throw error("var::broadcast: dimension mismatch");
 
     // Assume that the common dimension is to be broadcast over.
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
diff --git a/lube/math.cpp b/lube/math.cpp
index 7a65bd2..f695283 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -312,6 +312,9 @@ void Swap::vector(
 {
     assert(type(iVar1) == TYPE_ARRAY);
     int size = iVar1.shape(-1);
+    if (!iVar1.heap() || !iVar2.heap() ||
+        (iVar2.dim() != iVar1.dim()) || (iVar2.shape(-1) != size))
+        throw error("Swap::vector: Shapes not compatible");
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From 63228231a00513cac2a9bc7ceb8ca2253c7b1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 65/86] fix: arithmetic used an operand that it had already
 changed

---
 lube/func.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index e395dab..000448f 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -275,6 +275,9 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         bool element = iVar2.heap() && (iVar1.atype() == iVar2.atype());
         var v2 = element ? iVar2.at(0) : iVar2;
 
+        // It could be a reference to an element that gets changed
+        v2.dereference();
+
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
-- 
2.43.0


From 1f61daca6307b049ef4ae0913dc6dae78e84f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 66/86] fix: arithmetic on lists wrote into undefined elements

---
 lube/func.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 000448f..3220445 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -281,8 +281,11 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
+            var v1 = iVar1.at(i);
             var tmp = oVar.at(i);
-            scalar(iVar1.at(i), v2, tmp);
+            if (!tmp.defined())
+                tmp = alloc(v1, v2);
+            scalar(v1, v2, tmp);
         }
         return;
     }
-- 
2.43.0


From 212add9da24b13b9e7bee993e778dd4078a85087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 67/86] fix: arithmetic on arrays that do not fit reached
 outside them

---
 lube/func.cpp | 51 ++++++++++++++++++++++++++++++++++++++-------------
 lube/func.h   |  2 ++
 lube/math.cpp | 39 ++++++++++++++++++++++++++++++++++-----
 lube/math.h   |  2 ++
 4 files changed, 76 insertions(+), 18 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 3220445..cc1c747 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -256,6 +256,26 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 }
 
 
+/**
+ * Check that the trailing dimensions of iVar1 are those of iVar2, and that the
+ * output is as iVar1.
+ */
+void ArithmeticFunctor::match(var iVar1, var iVar2, var oVar) const
+{
+    int dim1 = iVar1.dim();
+    int dim2 = iVar2.dim();
+    for (int i=1; i<=dim2; i++)
+        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
+            throw error("var::broadcast: dimension mismatch");
+    if (!oVar.heap() || (oVar.atype() != iVar1.atype()) ||
+        (oVar.dim() != dim1))
+        throw error("var::broadcast: output does not match");
+    for (int i=0; i<dim1; i++)
+        if (oVar.shape(i) != iVar1.shape(i))
+            throw error("var::broadcast: output does not match");
+}
+
+
 /**
  * Arithmetic broadcaster
  *
@@ -264,12 +284,9 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
  */
 void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 {
-    int dim1 = iVar1.dim();
-    int dim2 = iVar2.dim();
-
     // Case 1: iVar2 has size 1
     // Call back to the unary operator
-    if ((dim2 == 1) && (iVar2.size() == 1))
+    if ((iVar2.dim() == 1) && (iVar2.size() == 1))
     {
         // If it's an array of that type then it's the element that counts
         bool element = iVar2.heap() && (iVar1.atype() == iVar2.atype());
@@ -279,6 +296,10 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         v2.dereference();
 
         // This could be parallel!
+        if (iVar1.heap() &&
+            (!oVar.heap() || (oVar.size() != iVar1.size()) ||
+             (oVar.atype() != iVar1.atype())))
+            throw error("var::broadcast: output does not match");
         for (int i=0; i<iVar1.size(); i++)
         {
             var v1 = iVar1.at(i);
@@ -291,20 +312,24 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     }
 
     // Case 2: iVar2 is also an array
+    tile(iVar1, iVar2, oVar);
+}
+
+
+/**
+ * Repeat the operation for each iVar2 sized bit of iVar1
+ */
+void ArithmeticFunctor::tile(var iVar1, var iVar2, var& oVar) const
+{
+    int dim1 = iVar1.dim();
+    int dim2 = iVar2.dim();
+
     // Check that the two arrays are broadcastable
     if (dim2 > dim1)
         throw error("var::broadcast: input dimension too large");
     if (iVar1.atype() != iVar2.atype())
         throw error("var::broadcast: types must match (for now)");
-#if 0
-    // Does not work for matrix multiplication
-    for (int i=1; i<dim2; i++)
-    {
-        // The dimensions should match
-        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
-            throw error("var::broadcast: dimension mismatch");
-    }
-#endif
+    match(iVar1, iVar2, oVar);
 
     // If it didn't throw, then the arrays are broadcastable
     // In this case, loop over iVar1 with different offsets
diff --git a/lube/func.h b/lube/func.h
index f267c34..851c08b 100644
--- a/lube/func.h
+++ b/lube/func.h
@@ -90,6 +90,8 @@ namespace libube
     class ArithmeticFunctor : public BinaryFunctor
     {
     protected:
+        void tile(var iVar1, var iVar2, var& oVar) const;
+        virtual void match(var iVar1, var iVar2, var oVar) const;
         virtual void broadcast(var iVar1, var iVar2, var& oVar) const;
     };
 
diff --git a/lube/math.cpp b/lube/math.cpp
index f695283..28f0799 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -517,6 +517,8 @@ void Mul::scale(var iVar1, var iVar2, var& oVar, int iOffset) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
     int size = iVar1.size();
+    if ((oVar.atype() != iVar1.atype()) || (oVar.size() != size))
+        throw error("Mul::scale: output does not match");
     if (oVar.is(iVar1))
     {
         // Scale in place
@@ -682,6 +684,38 @@ var Dot::alloc(var iVar1, var iVar2) const
 }
 
 
+/**
+ * Overload of broadcast() for the dot product.  An array of size 1 is still an
+ * array.
+ */
+void Dot::broadcast(var iVar1, var iVar2, var& oVar) const
+{
+    tile(iVar1, iVar2, oVar);
+}
+
+
+/**
+ * Check that the shapes fit for a dot product or matrix multiplication
+ */
+void Dot::match(var iVar1, var iVar2, var oVar) const
+{
+    int dim1 = iVar1.dim();
+    int dim2 = iVar2.dim();
+    if (!iVar1.heap() || !iVar2.heap())
+        throw error("Dot::match: not an array");
+    if (iVar1.shape(-1) != iVar2.shape(0))
+        throw error("Dot::match: Shapes not compatible");
+
+    // The output is as the first array, but with a different low dimension
+    if ((oVar.atype() != iVar1.atype()) || (oVar.dim() != dim1) ||
+        (oVar.shape(-1) != (dim2 > 1 ? iVar2.shape(1) : 1)))
+        throw error("Dot::match: output does not match");
+    for (int i=0; i<dim1-1; i++)
+        if (oVar.shape(i) != iVar1.shape(i))
+            throw error("Dot::match: output does not match");
+}
+
+
 void Dot::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
@@ -739,11 +773,6 @@ void Dot::vector(
     {
         // It's a two dimensional thing, so do it as a matrix multiplication
         // with blas::gemm()
-        if (iVar1.shape(1) != iVar2.shape(0))
-        {
-            std::cout << iVar1.shape() << iVar2.shape() << std::endl;
-            throw error("Dot::vector: Shapes not compatible");
-        }
         switch(iVar1.atype())
         {
         case TYPE_FLOAT:
diff --git a/lube/math.h b/lube/math.h
index 3be44ed..dfc7334 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -162,6 +162,8 @@ namespace libube
     {
     protected:
         var alloc(var iVar1, var iVar2) const;
+        void broadcast(var iVar1, var iVar2, var& oVar) const;
+        void match(var iVar1, var iVar2, var oVar) const;
         void vector(
             var iVar1, ind iOffset1,
             var iVar2, ind iOffset2,
-- 
2.43.0


From 0de76ea2e0619c5fc7c5f99167f7d56139bdd244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 68/86] fix: products of more than two dimensions used the
 wrong shape

---
 lube/math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 28f0799..4d90e20 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -777,7 +777,7 @@ void Dot::vector(
         {
         case TYPE_FLOAT:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0f,
                 iVar1.ptr<float>(iOffset1),
                 iVar2.ptr<float>(iOffset2),
@@ -787,7 +787,7 @@ void Dot::vector(
             break;
         case TYPE_DOUBLE:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0,
                 iVar1.ptr<double>(iOffset1),
                 iVar2.ptr<double>(iOffset2),
-- 
2.43.0


From c8150de6032df75405f69ce15f661196c45f6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 69/86] fix: arithmetic into a number of another type wrote
 over it

---
 lube/math.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 4d90e20..91c306d 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -82,6 +82,20 @@ ind type(var iVar)
 }
 
 
+/**
+ * The type for an operation that writes over its output.  If it's a number then
+ * the output has to be one of that type too.
+ */
+static ind type(const var& iVar, const var& oVar)
+{
+    ind t = type(iVar);
+    if ((t != TYPE_ARRAY) &&
+        (!oVar.defined() || (oVar.atype() != t) || (oVar.size() != 1)))
+        throw error("Output type does not match");
+    return t;
+}
+
+
 /**
  * Allocator where the output is the same shape but always real
  */
@@ -353,7 +367,7 @@ void Swap::vector(
 
 void Add::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
-    switch(type(iVar1))
+    switch(type(iVar1, oVar))
     {
     case TYPE_ARRAY:
         broadcast(iVar1, iVar2, oVar);
@@ -432,7 +446,7 @@ void Add::vector(
 
 void Sub::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
-    switch(type(iVar1))
+    switch(type(iVar1, oVar))
     {
     case TYPE_ARRAY:
         broadcast(iVar1, iVar2, oVar);
@@ -574,7 +588,7 @@ void Mul::scale(var iVar1, var iVar2, var& oVar, int iOffset) const
 
 void Mul::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
-    switch(type(iVar1))
+    switch(type(iVar1, oVar))
     {
     case TYPE_ARRAY:
         broadcast(iVar1, iVar2, oVar);
@@ -806,7 +820,7 @@ void Dot::vector(
 
 void Div::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
-    switch(type(iVar1))
+    switch(type(iVar1, oVar))
     {
     case TYPE_ARRAY:
         broadcast(iVar1, iVar2, oVar);
-- 
2.43.0


From 9381b42bcacda47f6fa8961ad4a9c6ca48b2d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 70/86] fix: error text of the mathematical functions

---
 lube/math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 91c306d..b767559 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -155,7 +155,7 @@ static var scalarAlloc(var iVar)
             oVar = std::f(iVar.get<double>());                          \
             break;                                                      \
         default:                                                        \
-            throw error("#F##::scalar: Unknown type");                  \
+            throw error(#F "::scalar: Unknown type");                  \
         }                                                               \
     }
 
@@ -180,7 +180,7 @@ static var scalarAlloc(var iVar)
             oVar = std::f(iVar.get<cdouble>());                         \
             break;                                                      \
         default:                                                        \
-            throw error("#F##::scalar(): Unknown type");                \
+            throw error(#F "::scalar(): Unknown type");                \
         }                                                               \
     }
 
-- 
2.43.0


From 28340361bb4f8f8d472e4f333c245473eb34199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 71/86] fix: set() wrote to its first argument instead of the
 output

---
 lube/math.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index b767559..78f705a 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -272,37 +272,37 @@ void Set::vector(
         blas::copy(
             size,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
         blas::copy(
             size,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CHAR:
-        std::copy_n(iVar2.ptr<char>(iOffset2), size, iVar1.ptr<char>(iOffset1));
+        std::copy_n(iVar2.ptr<char>(iOffset2), size, oVar.ptr<char>(iOffsetO));
         break;
     case TYPE_INT:
-        std::copy_n(iVar2.ptr<int>(iOffset2), size, iVar1.ptr<int>(iOffset1));
+        std::copy_n(iVar2.ptr<int>(iOffset2), size, oVar.ptr<int>(iOffsetO));
         break;
     case TYPE_LONG:
-        std::copy_n(iVar2.ptr<long>(iOffset2), size, iVar1.ptr<long>(iOffset1));
+        std::copy_n(iVar2.ptr<long>(iOffset2), size, oVar.ptr<long>(iOffsetO));
         break;
     case TYPE_CFLOAT:
         blas::copy(
             size,
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
         blas::copy(
             size,
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From a42bfdc8cbe5d3adf40e8621c1f884cc08705292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 72/86] fix: sums and differences into another array ignored
 its contents

---
 lube/math.cpp | 51 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 78f705a..ad91f8b 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -365,6 +365,25 @@ void Swap::vector(
 }
 
 
+/**
+ * Add a multiple of one array to another.  BLAS does it in place, so if it's
+ * not the first array that is to change then that has to be copied.
+ */
+template<class T>
+static void axpy(int iSize, T iAlpha, T* iX, T* iY, T* oZ)
+{
+    if ((oZ == iY) && (oZ != iX))
+    {
+        for (int i=0; i<iSize; i++)
+            oZ[i] = iX[i] + iAlpha * iY[i];
+        return;
+    }
+    if (oZ != iX)
+        blas::copy(iSize, iX, oZ);
+    blas::axpy(iSize, iAlpha, iY, oZ);
+}
+
+
 void Add::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 {
     switch(type(iVar1, oVar))
@@ -406,36 +425,39 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-        blas::axpy(
+        axpy<float>(
             size, 1.0f,
+            iVar1.ptr<float>(iOffset1),
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
-        blas::axpy(
+        axpy<double>(
             size, 1.0,
+            iVar1.ptr<double>(iOffset1),
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CFLOAT:
-        blas::axpy(
+        axpy<cfloat>(
             size, cfloat(1.0f,0.0f),
+            iVar1.ptr<cfloat>(iOffset1),
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
-        blas::axpy(
+        axpy<cdouble>(
             size, cdouble(1.0,0.0),
+            iVar1.ptr<cdouble>(iOffset1),
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
@@ -485,22 +507,23 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-        blas::axpy(
+        axpy<float>(
             size, -1.0f,
+            iVar1.ptr<float>(iOffset1),
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
-        blas::axpy(
+        axpy<double>(
             size, -1.0,
+            iVar1.ptr<double>(iOffset1),
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From 9975910df66546844ce638dec7832b653f9b1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 73/86] fix: roots of a linear polynomial could not be found

---
 lube/math.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index ad91f8b..10a4be7 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1143,7 +1143,7 @@ void Roots::vector(var iVar, var& oVar) const
 {
     // Form the companion matrix of the polynomial
     int size = oVar.size();
-    var a = var(size*size, iVar.at(0)).view({size, size});
+    var a = view({size, size}, iVar.at(0));
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
     for (int r=0; r<size-1; r++)
@@ -1157,8 +1157,8 @@ void Roots::vector(var iVar, var& oVar) const
     switch (iVar.atype())
     {
     case TYPE_FLOAT:
-        re = var(size, 1.0f);
-        im = var(size, 1.0f);
+        re = view({size}, 1.0f);
+        im = view({size}, 1.0f);
         lapack::geev(
             size,
             a.ptr<float>(),
@@ -1166,8 +1166,8 @@ void Roots::vector(var iVar, var& oVar) const
         );
         break;
     case TYPE_DOUBLE:
-        re = var(size, 1.0);
-        im = var(size, 1.0);
+        re = view({size}, 1.0);
+        im = view({size}, 1.0);
         lapack::geev(
             size,
             a.ptr<double>(),
@@ -1176,8 +1176,8 @@ void Roots::vector(var iVar, var& oVar) const
         break;
 #if 0
     case TYPE_CFLOAT:
-        re = var(size, 1.0f);
-        im = var(size, 1.0f);
+        re = view({size}, 1.0f);
+        im = view({size}, 1.0f);
         lapack::geev(
             size,
             a.ptr<cfloat>(),
@@ -1186,8 +1186,8 @@ void Roots::vector(var iVar, var& oVar) const
         );
         break;
     case TYPE_CDOUBLE:
-        re = var(size, 1.0);
-        im = var(size, 1.0);
+        re = view({size}, 1.0);
+        im = view({size}, 1.0);
         lapack::geev(
             size,
             a.ptr<cdouble>(),
-- 
2.43.0


From 69eda4e3e1393c532daeaf4e11eeb3163c9e7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 74/86] fix: polynomials with double complex roots overran
 their array

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 10a4be7..0aca84c 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1233,7 +1233,7 @@ var Poly::alloc(var iVar) const
         r = view(s, cfloat(0.0f, 0.0f));
         break;
     case TYPE_CDOUBLE:
-        r = view(s, cfloat(0.0, 0.0));
+        r = view(s, cdouble(0.0, 0.0));
         break;
     }
     return r;
-- 
2.43.0


From b8c77f3026e513524f04674fe2b2450cf03b887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 75/86] fix: concatenating arrays of different dimension
 overran the result

---
 lube/math.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index 0aca84c..82330d9 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1324,6 +1324,8 @@ var Concatenate::alloc(var iVar) const
     int sum = iVar[0].shape(-1);
     for (int v=1; v<iVar.size(); v++)
     {
+        if (iVar[v].dim() != dim)
+            throw error("Concatenate: dimensions differ");
         for (int d=0; d<dim-1; d++)
             if (iVar[v].shape(d) != iVar[0].shape(d))
                 throw error("Concatenate: dimensions differ");
-- 
2.43.0


From a1eb5bf5c87312fea064cf4fbacdc6d3d6b4f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:27 +0000
Subject: [PATCH 76/86] fix: casting an array to a number gave rubbish

---
 lube/var.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index e5d21b0..85357a4 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -128,13 +128,17 @@ namespace libube
 
     /*
      * To cast an array of one number (a single cdouble always is one) to a
-     * number is to cast the element.
+     * number is to cast the element.  Other arrays, except strings, are not
+     * numbers; the exception is that a cdouble may just have been extended to
+     * take a copy of itself.
      */
     static var castable(const var& iVar) {
-        if (iVar.heap() && (iVar.size() == 1) &&
-            (iVar.atype() > TYPE_CHAR) && (iVar.atype() <= TYPE_CDOUBLE))
+        if (!iVar.heap() || (iVar.atype() == TYPE_CHAR))
+            return iVar;
+        if (((iVar.size() == 1) && (iVar.atype() <= TYPE_CDOUBLE)) ||
+            ((iVar.size() > 1) && (iVar.atype() == TYPE_CDOUBLE)))
             return iVar.at(0);
-        return iVar;
+        throw error("var::cast(): not a single number");
     }
 
     template<> char var::cast<char>() const {
-- 
2.43.0


From 0c114c9ee451fff75dad91919f44d60c7ca340ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:21 +0000
Subject: [PATCH 77/86] fix: elements of double precision complex views could
 not be shown

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 5180b30..b6f876a 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -326,8 +326,8 @@ void JSON::format(std::ostream& iStream, var iVar, int iIndent)
         iStream << iVar.get<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        //iStream << iVar.get<cdouble>();
-        throw error("var::format(): cdouble should be array");
+        // It's a reference to an element of an array
+        iStream << iVar.get<cdouble>();
         break;
     default:
         throw error("var::format(): Unknown type");
-- 
2.43.0


From 116ae416734fea4af9e3414d53bda5022b55803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:07 +0000
Subject: [PATCH 78/86] fix: an array made with a shape leaked when filling it
 failed

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 85357a4..c214b8a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -484,7 +484,7 @@ var::var(const std::initializer_list<var> iList) : var()
 }
 
 
-var::var(const std::initializer_list<int> iShape, var iType)
+var::var(const std::initializer_list<int> iShape, var iType) : var()
 {
     *this = libube::view(iShape, iType);
     for (int i=0; i<size(); i++)
-- 
2.43.0


From a8bdef7a8e75c479e48f0ff50400ce93c72fe43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:07 +0000
Subject: [PATCH 79/86] fix: casting a string or a list to double complex did
 nothing, or read past its end

---
 lube/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index c214b8a..2fae1a4 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -709,7 +709,8 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
     // Return immediately if no cast is required
     const T t = 0;
     static var v = t;
-    if (v.type() == iVar.type())
+    if ((v.type() == iVar.type()) &&
+        (!v.heap() || (iVar.heap() && (v.atype() == iVar.atype()))))
     {
         if (!iVar.is(oVar))
             oVar = iVar;
-- 
2.43.0


From b507f42e3b6fd4d4ac83bb3f75a5c5d733bd868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:07 +0000
Subject: [PATCH 80/86] fix: ranges changed the elements they were given as
 limits

---
 lube/var.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 2fae1a4..70aa327 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -920,10 +920,11 @@ var var::key(int iIndex) const
 var libube::irange(var iLo, var iHi, var iStep)
 {
     var r;
-    while (iLo < iHi)
+    var v = iLo.copy(); // iLo could be a reference to something
+    while (v < iHi)
     {
-        r.push(iLo);
-        iLo += iStep;
+        r.push(v);
+        v = v + iStep;
     }
     return r;
 }
@@ -946,10 +947,11 @@ var libube::irange(var iHi)
 var libube::range(var iLo, var iHi, var iStep)
 {
     var r;
-    while (iLo <= iHi)
+    var v = iLo.copy(); // iLo could be a reference to something
+    while (v <= iHi)
     {
-        r.push(iLo);
-        iLo += iStep;
+        r.push(v);
+        v = v + iStep;
     }
     return r;
 }
-- 
2.43.0


From 26e6bc9ced209361edfa4498710e2977496faf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:08 +0000
Subject: [PATCH 81/86] fix: asking the element type of nil dereferenced a null
 pointer

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 70aa327..2559e64 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1093,7 +1093,7 @@ var var::atypeStr() const
     if (type() == TYPE_ARRAY)
     {
         varstream s;
-        s << "array[" << libube::typeStr(heap()->type()) << "]";
+        s << "array[" << libube::typeStr(atype()) << "]";
         return var(s);
     }
     return typeStr();
-- 
2.43.0


From 75217ecc6b82da556cf916e9db567f6e7cab4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:08 +0000
Subject: [PATCH 82/86] fix: making a view changed the element or array whose
 type it was given

---
 lube/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 2559e64..0774622 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1513,7 +1513,7 @@ var libube::view(const std::initializer_list<int> iShape, var iType)
     int s = 1;
     for (const int* it=begin(iShape); it!=end(iShape); ++it)
         s *= *it;
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : var(0.0f);
     v.array();
     v.resize(s);
     return v.view(iShape);
@@ -1529,7 +1529,7 @@ var libube::view(var iShape, var iType)
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
         s *= iShape[i].cast<int>();
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : var(0.0f);
     v.array();
     v.resize(s);
     return v.view(iShape);
-- 
2.43.0


From 4b3635190e83d952131b30ba12e2416ed4a07200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:56 +0000
Subject: [PATCH 83/86] fix: multiplying two arrays into the second one gave
 zeros

---
 lube/math.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 82330d9..2c8a427 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -643,6 +643,21 @@ void Mul::scalar(const var& iVar1, const var& iVar2, var& oVar) const
 }
 
 
+/** True if both arrays, of the same type, begin at the same place in memory */
+static bool together(var iVar1, ind iOffset1, var iVar2, ind iOffset2)
+{
+    switch(iVar1.atype())
+    {
+    case TYPE_FLOAT:
+        return iVar1.ptr<float>(iOffset1) == iVar2.ptr<float>(iOffset2);
+    case TYPE_DOUBLE:
+        return iVar1.ptr<double>(iOffset1) == iVar2.ptr<double>(iOffset2);
+    default:
+        return iVar1.is(iVar2);
+    }
+}
+
+
 void Mul::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
@@ -654,7 +669,15 @@ void Mul::vector(
     // superdiagonals.
     assert(type(iVar1) == TYPE_ARRAY);
     int size = iVar2.size();
-    if (iVar1.is(oVar))
+    bool inPlace = together(iVar1, iOffset1, oVar, iOffsetO);
+    if (!inPlace && (iVar1.size() == size) &&
+        together(iVar2, iOffset2, oVar, iOffsetO))
+    {
+        // The result replaces iVar2; they are all the same size
+        vector(iVar2, iOffset2, iVar1, iOffset1, oVar, iOffsetO);
+        return;
+    }
+    if (inPlace)
     {
         // tbmv() (triangular band) overwrites the current location.
         switch(iVar1.atype())
-- 
2.43.0


From 73ff4e02453d591d3871de8373a06e5a606a1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:45 +0000
Subject: [PATCH 84/86] fix: sums, polynomials and transposes into an output
 that does not fit wrote past it

---
 lube/math.cpp            | 10 ++++++++++
 lube/transpose-adhoc.cpp |  4 ++++
 lube/transpose-mkl.cpp   |  4 ++++
 3 files changed, 18 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index 2c8a427..719e439 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -965,6 +965,8 @@ void ASum::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
 {
     assert(type(iVar) == TYPE_ARRAY);
     int size = iVar.shape(-1);
+    if (oVar.size() * size != iVar.size())
+        throw error("ASum::vector: output does not match");
     switch(iVar.atype())
     {
     case TYPE_FLOAT:
@@ -1027,6 +1029,8 @@ void Sum::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
 {
     assert(type(iVar) == TYPE_ARRAY);
     int size = iVar.shape(-1);
+    if (oVar.size() * size != iVar.size())
+        throw error("Sum::vector: output does not match");
     switch(iVar.atype())
     {
     case TYPE_FLOAT:
@@ -1078,6 +1082,8 @@ void IAMax::vector(
         throw error("IAMax::vector: Cannot operate in place");
 
     int size = iVar.shape(-1);
+    if (oVar.size() * size != iVar.size())
+        throw error("IAMax::vector: output does not match");
     switch(iVar.atype())
     {
     case TYPE_FLOAT:
@@ -1166,6 +1172,8 @@ void Roots::vector(var iVar, var& oVar) const
 {
     // Form the companion matrix of the polynomial
     int size = oVar.size();
+    if (size != iVar.size()-1)
+        throw error("Roots::vector: output does not match");
     var a = view({size, size}, iVar.at(0));
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
@@ -1283,6 +1291,8 @@ void polyt(int iOrder, T* iData, T* oData)
 void Poly::vector(var iVar, var& oVar) const
 {
     int order = iVar.shape(-1);
+    if (oVar.size() != order+1)
+        throw error("Poly::vector: output does not match");
     switch (iVar.atype())
     {
     case TYPE_FLOAT:
diff --git a/lube/transpose-adhoc.cpp b/lube/transpose-adhoc.cpp
index 34e36db..ef4bfde 100644
--- a/lube/transpose-adhoc.cpp
+++ b/lube/transpose-adhoc.cpp
@@ -46,6 +46,10 @@ void Transpose::scalar(const var& iVar, var& oVar) const
     // already.  This leaves the in-place case; this happens after the
     // operation.
 
+    // At least it has to be large enough
+    if (iVar.size() != oVar.size())
+        throw error("Transpose::scalar: output does not match");
+
     // Transpose always broadcasts to array()
     broadcast(iVar, oVar);
 
diff --git a/lube/transpose-mkl.cpp b/lube/transpose-mkl.cpp
index f2f43b3..3a4fff5 100644
--- a/lube/transpose-mkl.cpp
+++ b/lube/transpose-mkl.cpp
@@ -47,6 +47,10 @@ void Transpose::scalar(const var& iVar, var& oVar) const
     // already.  This leaves the in-place case; this happens after the
     // operation.
 
+    // At least it has to be large enough
+    if (iVar.size() != oVar.size())
+        throw error("Transpose::scalar: output does not match");
+
     // Transpose always broadcasts to array()
     broadcast(iVar, oVar);
 
-- 
2.43.0


From 070a52b4c9685878a2f449e3f45413c33fdd5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:27 +0000
Subject: [PATCH 85/86] fix: concatenating into an output that does not fit
 wrote past it

---
 lube/math.cpp | 22 +++++++++++++++++++++-
 lube/math.h   |  1 +
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 719e439..50d3b07 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1350,7 +1350,8 @@ void Sort::vector(var iVar, var& oVar) const
 }
 
 
-var Concatenate::alloc(var iVar) const
+/** The shape of several arrays concatenated */
+static var concatenatedShape(var iVar)
 {
     // Basically check that the shapes match
     int dim = iVar[0].dim();
@@ -1369,11 +1370,30 @@ var Concatenate::alloc(var iVar) const
     // Allocate a new shape with the summed low dimension
     var s = iVar[0].shape();
     s[dim-1] = sum;
+    return s;
+}
+
+
+var Concatenate::alloc(var iVar) const
+{
+    var s = concatenatedShape(iVar);
     var r = view(s, iVar[0].at(0));
     return r;
 }
 
 
+void Concatenate::scalar(const var& iVar, var& oVar) const
+{
+    var s = concatenatedShape(iVar);
+    if (oVar.dim() != s.size())
+        throw error("Concatenate: output does not match");
+    for (int d=0; d<s.size(); d++)
+        if (oVar.shape(d) != s[d].cast<int>())
+            throw error("Concatenate: output does not match");
+    broadcast(iVar, oVar);
+}
+
+
 void Concatenate::vector(var iVar, var& oVar) const
 {
     int sum = 0;
diff --git a/lube/math.h b/lube/math.h
index dfc7334..49ad62d 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -287,6 +287,7 @@ namespace libube
         Concatenate() { mDim = 1; };
     protected:
         var alloc(var iVar) const;
+        virtual void scalar(const var& iVar, var& oVar) const;
         virtual void vector(var iVar, var& oVar) const;
     };
 
-- 
2.43.0


From df2609986b6c0bb45439d1fcd7d518cb55a05000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:58 +0000
Subject: [PATCH 86/86] fix: a result with another number of dimensions could
 be written beyond its end

---
 lube/func.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index cc1c747..3e8246d 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -70,6 +70,9 @@ void UnaryFunctor::vector(var iVar, ind iIOffset, var& oVar, ind iOOffset) const
     int dimI = iVar.dim();
     int dimO = oVar.dim();
     int cdim = dimI - mDim;
+    if ((cdim > 0) && (dimO != dimI))
+        // The part at the offset would be larger than what is left
+        throw error("UnaryFunctor::vector: output dimension does not match");
     var iv = iVar.subview(dimI-cdim, iIOffset);
     var ov = oVar.subview(dimO-cdim, iOOffset);
     vector(iv, ov);
-- 
2.43.0

