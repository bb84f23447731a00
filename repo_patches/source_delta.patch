From 767501c8ab99334ae36e1770c4465eed75e21e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 01/85] fix: reductions: test the masked flag bits when
 deciding if everything is flagged

---
 MeqNodes/src/ReductionFunction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index e4d4409..2cb0642 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -80,7 +80,7 @@ VellsFlagType ReductionFunction::isAllFlagged (const Vells &flagvells,VellsFlagT
   // output will have a flag only if all of input is flagged
   const VellsFlagType *pflag = flagvells.begin<VellsFlagType>();
   for( ; pflag != flagvells.end<VellsFlagType>(); pflag++ )
-    if( !(*pflag)&mask )
+    if( !((*pflag)&mask) )
       return 0;
   // if we got here, than all points are flagged
   return mask;
-- 
2.43.0


From f884d0c96798f3b5cbaa604adea6a79f43e8d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 02/85] fix: Selector, Paster: rewind along a completed axis
 when slicing several axes

---
 MeqNodes/src/Paster.cc   | 5 +++--
 MeqNodes/src/Selector.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index d4530f6..171f828 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -147,8 +147,9 @@ int Paster::getResult (Result::Ref &resref,
             offset += strides[idim]; // advance along this axis
             if( --shp0[idim] )       // still something to go? break
               break;
-            else                     // reached end of axis, reset and go to next
-              shp0[idim] = shp[idim]; 
+            // reached end of axis: rewind, reset and go to next
+            offset -= strides[idim]*shp[idim];
+            shp0[idim] = shp[idim];
           }
       }
     }
diff --git a/MeqNodes/src/Selector.cc b/MeqNodes/src/Selector.cc
index 75d546d..bdf8a26 100644
--- a/MeqNodes/src/Selector.cc
+++ b/MeqNodes/src/Selector.cc
@@ -158,8 +158,9 @@ int Selector::getResult (Result::Ref &resref,
             offset += strides[idim]; // advance along this axis
             if( --shp0[idim] )       // still something to go? break
               break;
-            else                     // reached end of axis, reset and go to next
-              shp0[idim] = shp[idim];
+            // reached end of axis: rewind, reset and go to next
+            offset -= strides[idim]*shp[idim];
+            shp0[idim] = shp[idim];
           }
       }
     }
-- 
2.43.0


From 1515c080ee82a6363bdca8dbf16482d6fd0b8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 03/85] fix: max() reduction: start from the lowest value, not
 the smallest positive one

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 8583d01..6095597 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -843,7 +843,7 @@ inline dcomplex mkconst (int x,dcomplex *)
 defineReductionFuncTemplate(min,std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(min,"min() can only be applied to a real Meq::Vells");
 #define Do_max(y,x) y=max(x,y)
-defineReductionFuncTemplate(max,std::numeric_limits<TY>::min());
+defineReductionFuncTemplate(max,-std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(max,"max() can only be applied to a real Meq::Vells");
 
 Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_min_lut[VELLS_LUT_SIZE] =
-- 
2.43.0


From 8caf41a0a51ebeff7d50c10841328ea7557ea6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 04/85] fix: posdiff(): wrap by 2*pi (M_2_PI is 2/pi)

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 6095597..cb38503 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -1212,7 +1212,7 @@ Meq::Vells::BinaryOperPtr Meq::Vells::binfunc_polar_lut[VELLS_LUT_SIZE][VELLS_LU
 static inline double posdiff (double x,double y)
 {
   double diff = x-y;
-  return diff < -M_PI ? diff + M_2_PI : ( diff > M_PI ? diff - M_2_PI : diff );
+  return diff < -M_PI ? diff + 2*M_PI : ( diff > M_PI ? diff - 2*M_PI : diff );
 }
 defineBinaryFuncTemplate(posdiff,posdiff,);
 defineErrorFunc2(error_binary_posdiff,"posdiff() can only be applied to two real Meq::Vells");
-- 
2.43.0


From bc42affabf502fcccf70533444e4322d4c0711a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 05/85] fix: sum, product, nelements: count the points visited
 when flags outspan the data

---
 MEQ/src/Vells.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index cb38503..c9b4f90 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -874,13 +874,28 @@ Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_mean_lut[VELLS_LUT_SIZE] =
 // these functions require a renormalization term, to take into account the
 // fact that a Vells constant along axis #i will only contain one
 // actual value to represent Ni points.
-// The renormalization term is (N points in full shape)/(N actual points in Vells)
+// The renormalization term is (N points in full shape)/(N actual points visited),
+// where the points visited span the union of the data shape and the flag shape.
+static int renormFactor (const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
+{
+  int nvis = x.nelements();
+  if( flagmask && x.hasDataFlags() )
+  {
+    const Meq::Vells &df = x.dataFlags();
+    int rank = std::max(x.rank(),df.rank());
+    nvis = 1;
+    for( int i=0; i<rank; i++ )
+      nvis *= std::max(x.extent(i),df.extent(i));
+  }
+  return std::max(shape.product()/nvis,1);
+}
+
 template<class TY,class TX>
 static void implement_sum (Meq::Vells &y,const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
 {
   int nel;
   TY y0 = implement_sum_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = renormFactor(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = y0 * mkconst(renorm,&y0);
 }
 
@@ -891,7 +906,7 @@ static void implement_product (Meq::Vells &y,const Meq::Vells &x,const Meq::Vell
 {
   int nel;
   TY y0 = implement_product_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = renormFactor(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = pow(y0,renorm);
 }
 
@@ -908,10 +923,7 @@ static void implement_nelements (Meq::Vells &y,const Meq::Vells &x,const Meq::Ve
     // now, nel counts the non-flagged elements, auto-expanding collapsed axes
     // to the union of the data shape and the flag shape. If input shape is
     // bigger still, we need to renormalize by the remaining collapsed dimensions.
-    const Meq::Vells &df = x.dataFlags();
-    for( uint i=0; i<shape.size(); i++ )
-      if( shape[i] > 1 && x.extent(i) == 1 && df.extent(i) == 1 )
-        nel *= shape[i];
+    nel *= renormFactor(x,shape,flagmask);
     y.as<double>() = nel;
   }
   else
-- 
2.43.0


From fc5e76bb7591a8a0d6a184c8deaee26fe420c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 06/85] fix: VellSet: copying no longer fails after flags or
 values were replaced by less variable ones

---
 MEQ/src/VellSet.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index b22f9d7..4a19c90 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -170,9 +170,14 @@ void VellSet::verifyShape (bool reset)
   for( uint iset=0; iset<pset_.size(); iset++ )
     for( int i=0; i<numspids_; i++ )
       adjusted |= adjustShape(shp,getPerturbedValue(i,iset));
-  // set new shape if needed
+  // set new shape if needed. On reset, the old shape does not count: it may be
+  // stale if flags or values have been replaced by less variable ones
   if( adjusted )
+  {
+    if( reset )
+      shape_.clear();
     setShape(shp);
+  }
 }
 
 bool VellSet::adjustShape (LoShape &shp,const Vells &vells)
-- 
2.43.0


From 5cb43c855b4b552190220688ed97d9c159565676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 07/85] fix: Stokes: do not require cells (or a shape) of
 constant inputs

---
 MeqNodes/src/Stokes.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/MeqNodes/src/Stokes.cc b/MeqNodes/src/Stokes.cc
index 5b4637e..1e0876e 100644
--- a/MeqNodes/src/Stokes.cc
+++ b/MeqNodes/src/Stokes.cc
@@ -55,15 +55,12 @@ namespace Meq {
     // If QUV is 0, returns scalar I
 
     const Result &tempres = childres.at(0);
-    const Cells& cells = childres.at(0)->cells();
 
     const VellSet &vsI = tempres.vellSet(0);
     const VellSet &vsQ = tempres.vellSet(1);
     const VellSet &vsU = tempres.vellSet(2);
     const VellSet &vsV = tempres.vellSet(3);
 
-    const Vells::Shape &shape = vsI.shape();
-
     const Vells &vellsI = vsI.getValue();
     
     // if no U/V polarization, form up diagonal matrix
@@ -94,8 +91,6 @@ namespace Meq {
       const Vells &vellsU = vsU.getValue();
       const Vells &vellsV = vsV.getValue();
   
-      Vells vellsc0 = Vells(double(0.0),shape,true);
-  
       // For now consider Linear Polarization
       Vells vellsXX = (vellsI + vellsQ)*scale_;
       Vells vellsXY = tocomplex(vellsU,vellsV)*scale_;
@@ -115,7 +110,9 @@ namespace Meq {
       vs2.setValue(vellsYX);
       vs3.setValue(vellsYY);
     }
-    resref().setCells(cells);
+    // constant inputs come without cells
+    if( tempres.hasCells() )
+      resref().setCells(tempres.cells());
     
     return 0;
     
-- 
2.43.0


From ce5a236698ac36fb838cd5b3d70a4e672d44ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 08/85] fix: Paster: take over the cells when a variable result
 is pasted into a constant one

---
 MeqNodes/src/Paster.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index 171f828..76192c2 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -154,6 +154,9 @@ int Paster::getResult (Result::Ref &resref,
       }
     }
   }
+  // a constant result has no cells, but needs them if something variable has been pasted in
+  if( !resref->hasCells() && childres.hasCells() )
+    resref().setCells(childres.cells());
   // check that shapes are still valid (since we may have pasted in
   // a child result of a conflicting shape)
   resref().verifyShape();
-- 
2.43.0


From d57cb6cf9c8ed77ab3e8a9ae1d4f309831536d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 09/85] fix: MatrixMultiply: set cells of intermediate results

---
 MeqNodes/src/MatrixMultiply.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 49e643d..dd009cd 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -405,6 +405,9 @@ int MatrixMultiply::getResult (Result::Ref &resref,
         } // for j
       } // for i
     } // else (end of proper multiplication case)
+    // an intermediate result with variable elements needs cells (else it can't be copied)
+    if( request.hasCells() && resref1->needsCells(request.cells()) )
+      resref1().setCells(request.cells());
     // store result in resref and possibly go back for another loop
     resref = resref1;
     // drop out with a fail if the multiplication was a total fail
-- 
2.43.0


From d60f8ae94d170de6ec8c5e4a9ff0e9636023fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 10/85] fix: MatrixInvert22: allow two perturbation sets

---
 MeqNodes/src/MatrixInvert22.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index 6ebeb11..b4258c2 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -141,7 +141,7 @@ int MatrixInvert22::getResult (Result::Ref &resref,
     VellSet * outvs[nvs];
     for( int i=0; i<nvs; i++ )
     {
-      outvs[i] = &(result.setNewVellSet(i));
+      outvs[i] = &(result.setNewVellSet(i,0,0));
       // attach flags to output vellsets
       if( flagref.valid() )
         outvs[i]->setDataFlags(flagref);
-- 
2.43.0


From f2259bfc45aaac66590b307f1eca00f0032e8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 11/85] fix: VellSet: drop stale data flags from values set
 into a flagless VellSet

---
 MEQ/src/VellSet.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 4a19c90..df0b232 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -569,9 +569,11 @@ void VellSet::setValue (Vells::Ref &ref,int flags)
 {
   Thread::Mutex::Lock lock(mutex());
   adjustShape(*ref);
-  // attach flags if we have them
+  // attach flags if we have them, and drop any left over from elsewhere if we don't
   if( hasDataFlags() )
     ref().setDataFlags(dataFlags());
+  else if( ref->hasDataFlags() )
+    ref().clearDataFlags();
   Field & field = Record::addField(FValue,ref.ref_cast<BObj>(),flags|DMI::REPLACE|Record::PROTECT);
   pvalue_ = &( field.ref().ref_cast<Vells>() );
 }
@@ -584,9 +586,11 @@ void VellSet::setPerturbedValue (int i,Vells::Ref &ref,int iset,int flags)
   PerturbationSet &ps = pset_[iset];
   // allocate container for perturbed values
   FailWhen(!ps.pertval_vec,"perturbed values not initialized in this VellSet");
-  // attach flags if we have them
+  // attach flags if we have them, and drop any left over from elsewhere if we don't
   if( hasDataFlags() )
     ref().setDataFlags(dataFlags());
+  else if( ref->hasDataFlags() )
+    ref().clearDataFlags();
   ps.pertval_vec->dewr().put(i,ref,flags);
 }
 
-- 
2.43.0


From eaa9a959a0532e19e7666990d91f09b33d39e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 12/85] fix: reductions along axes: compute each slice from its
 own points, not from adjacent ones

---
 MEQ/src/VellsSlicerWithFlags.h    | 10 +++++++++
 MeqNodes/src/ReductionFunction.cc | 34 ++++++++++++++++++++++++++++---
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/VellsSlicerWithFlags.h b/MEQ/src/VellsSlicerWithFlags.h
index 68ac477..ae8afdb 100644
--- a/MEQ/src/VellsSlicerWithFlags.h
+++ b/MEQ/src/VellsSlicerWithFlags.h
@@ -100,6 +100,16 @@ class ConstVellsSlicerWithFlags0
       const void * pdata () const
       { return pdata_; }
       
+      const LoShape & flagShape () const
+      { return flag_shape_; }
+      
+      const LoShape & flagStrides () const
+      { return flag_strides_; }
+      
+      // current flag data, 0 if there are no flags
+      const void * pflags () const
+      { return pflags_; }
+      
       const Vells & vells () const
       { return vells_; }
       
diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index 2cb0642..0dbf85e 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -102,6 +102,34 @@ void ReductionFunction::makeVellsSlicer (Vells::Ref &out,ConstVellsSlicer0 &slic
   out <<= new Vells(invells,slicer.nonSlicedShape(),false);
 }
 
+// helper function: copies one slice of data into a contiguous Vells. (The VellsMath
+// reductions work directly on the underlying data, so they can't be
+// given a Vells that is a strided reference.)
+static Vells::Ref packSlice (const void *pdata,const LoShape &shape,const LoShape &strides,const Vells &like)
+{
+  Vells::Ref out(new Vells(like,shape,false));
+  char * pout = static_cast<char*>(out().getDataPtr());
+  size_t size = out->elementSize();
+  Vells::DimCounter counter(shape);
+  for( ; counter.valid(); counter.incr(),pout+=size )
+  {
+    int offset = 0;
+    for( uint i=0; i<shape.size(); i++ )
+      offset += counter.counter(i)*strides[i];
+    memcpy(pout,static_cast<const char*>(pdata)+offset*int(size),size);
+  }
+  return out;
+}
+
+// same, for a slice with flags
+static Vells::Ref packSlice (const ConstVellsSlicerWithFlags0 &slicer,const Vells &invells)
+{
+  Vells::Ref out = packSlice(slicer.pdata(),slicer.shape(),slicer.strides(),invells);
+  if( invells.hasDataFlags() )
+    out().setDataFlags(packSlice(slicer.pflags(),slicer.flagShape(),slicer.flagStrides(),invells.dataFlags()));
+  return out;
+}
+
 Vells ReductionFunction::apply (VellsMath::UnaryRdFunc func,const Vells &invells,VellsFlagType flagmask)
 {
   // make slicer and output vells
@@ -117,7 +145,7 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFunc func,const Vells &invells
   for( ; slicer.valid(); slicer.incr(),ptr+=size )
   {
     DbgAssert(ptr<endptr);
-    Vells result = (*func)(slicer.vells(),flagmask);
+    Vells result = (*func)(*packSlice(slicer,invells),flagmask);
     memcpy(ptr,result.getConstDataPtr(),size);
   }
   DbgAssert(ptr==endptr);
@@ -149,7 +177,7 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
   for( ; slicer.valid(); slicer.incr(),ptr+=size )
   {
     DbgAssert(ptr<endptr);
-    Vells result = (*func)(slicer.vells(),res_shape,flagmask);
+    Vells result = (*func)(*packSlice(slicer,invells),res_shape,flagmask);
     memcpy(ptr,result.getConstDataPtr(),size);
   }
   DbgAssert(ptr==endptr);
@@ -234,7 +262,7 @@ void ReductionFunction::evaluateFlags (Vells::Ref &out,const Request &req,const
     {
       DbgAssert(slicer.valid());
       // output flag is set only if all of the current slice is flagged
-      tot_flags |= *pflag = isAllFlagged(slicer.vells(),flagmask);
+      tot_flags |= *pflag = isAllFlagged(*packSlice(slicer.pdata(),slicer.shape(),slicer.strides(),vs.dataFlags()),flagmask);
       slicer.incr();
     }
     // have we flagged anything at all in the output? assign flags then
-- 
2.43.0


From 165f281c733d40d4a62d74ffecbc2ccbc3fb853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 13/85] fix: Rms, StdDev: ignore flagged points in the mean
 square

---
 MeqNodes/src/Rms.cc    | 8 ++++++--
 MeqNodes/src/StdDev.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/MeqNodes/src/Rms.cc b/MeqNodes/src/Rms.cc
index fe76bbd..3491af0 100644
--- a/MeqNodes/src/Rms.cc
+++ b/MeqNodes/src/Rms.cc
@@ -39,14 +39,18 @@ Vells Rms::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
   // only one child ever expected -- see constructor 
+  Vells squared = sqr(*values[0]);
+  // flagged points are to be ignored in the square as well
+  if( values[0]->hasDataFlags() )
+    squared.setDataFlags(values[0]->dataFlags());
   if( hasReductionAxes() )  // reduce along axes 
   {
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = apply(VellsMath::mean,squared,flagmask_[0]);
     return sqrt(vmeansq);
   }
   else                      // reduce to single value
   {
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = mean(squared,flagmask_[0]);
     return sqrt(vmeansq);
   }
 }
diff --git a/MeqNodes/src/StdDev.cc b/MeqNodes/src/StdDev.cc
index cabad27..dcecd97 100644
--- a/MeqNodes/src/StdDev.cc
+++ b/MeqNodes/src/StdDev.cc
@@ -40,16 +40,20 @@ Vells StdDev::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
   // only one child ever expected -- see constructor 
+  Vells squared = sqr(*values[0]);
+  // flagged points are to be ignored in the square as well
+  if( values[0]->hasDataFlags() )
+    squared.setDataFlags(values[0]->dataFlags());
   if( hasReductionAxes() )  // reduce along axes 
   {
     Vells vmean = apply(VellsMath::mean,*values[0],flagmask_[0]);
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = apply(VellsMath::mean,squared,flagmask_[0]);
     return sqrt(vmeansq - sqr(vmean));
   }
   else                      // reduce to single value
   {
     Vells vmean = mean(*values[0],flagmask_[0]);
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = mean(squared,flagmask_[0]);
     return sqrt(vmeansq - sqr(vmean));
   }
 }
-- 
2.43.0


From e3fc349099d1cb2eba0827fda33d101a18835be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 14/85] fix: slicers: allow slicing along more axes than the
 data has (collapsed axes)

---
 MEQ/src/VellsSlicer.cc          | 4 ++--
 MEQ/src/VellsSlicerWithFlags.cc | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/VellsSlicer.cc b/MEQ/src/VellsSlicer.cc
index 878d6d9..b3decb4 100644
--- a/MEQ/src/VellsSlicer.cc
+++ b/MEQ/src/VellsSlicer.cc
@@ -33,7 +33,6 @@ namespace Meq
 void ConstVellsSlicer0::init (const Vells &vells,bool writable,const int *axes,int n)
 {
   int rank = vells.rank();
-  FailWhen(n>rank,"rank of VellsSlicer is too high");
   // init internals
   writable_ = writable;
   pvells0_ = const_cast<Vells*>(&vells);
@@ -64,7 +63,8 @@ void ConstVellsSlicer0::init (const Vells &vells,bool writable,const int *axes,i
       shape_[i] = vshape[iaxis];
       strides_[i] = vstrides_[iaxis];
       // collapse this axis in the non-sliced shape
-      if( iaxis == int(ns_shape_.size())-1 )
+      // (but always leave a rank of at least 1)
+      if( iaxis && iaxis == int(ns_shape_.size())-1 )
         ns_shape_.resize(iaxis);
       else
         ns_shape_[iaxis] = 1;       
diff --git a/MEQ/src/VellsSlicerWithFlags.cc b/MEQ/src/VellsSlicerWithFlags.cc
index 21ba918..325413c 100644
--- a/MEQ/src/VellsSlicerWithFlags.cc
+++ b/MEQ/src/VellsSlicerWithFlags.cc
@@ -35,7 +35,6 @@ void ConstVellsSlicerWithFlags0::init (const Vells &vells,const int *axes,int n)
   // if flags not attached, use the static "null" flags
   fvells0_ = vells.hasDataFlags() ? &(vells.dataFlags()) : 0;
   int rank = std::max(vells.rank(),(fvells0_ ? fvells0_->rank() : 0));
-  FailWhen(n>rank,"rank of VellsSlicer is too high");
   // init internals
   pvells0_ = const_cast<Vells*>(&vells);
   data_size_ = vells.elementSize();
-- 
2.43.0


From 52947ac1147f4c81897ce1db15ed7ec3e984bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 15/85] fix: MatrixMultiply: apply the flag mask when
 multiplying by unity

---
 MeqNodes/src/MatrixMultiply.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index dd009cd..dfa1562 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -104,6 +104,8 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
             Vells::mergeFlags(flags,sca_vs.dataFlags(),fms);
           if( flags.valid() && !vs0.sameDataFlags(flags) )
             res().vellSetWr(i).setDataFlags(flags);
+          else if( !flags.valid() && vs0.hasDataFlags() ) // nothing left by the masks
+            res().vellSetWr(i).clearDataFlags();
         }
       }
       return;
-- 
2.43.0


From 5f85711e69d6b36fe8efe444fb34eb0aff281077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 16/85] fix: record values(), itervalues(), popitem(), str()
 and attribute deletion

---
 OCTOPython/src/dmi.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/OCTOPython/src/dmi.py b/OCTOPython/src/dmi.py
index 363cef9..fc4ec8e 100644
--- a/OCTOPython/src/dmi.py
+++ b/OCTOPython/src/dmi.py
@@ -215,8 +215,8 @@ class recdict (dict):
   # __delattr__: deletes key
   def __delattr__(self,name):
     if name.startswith('__'):
-      return dict.__delattr__(self,name,value);
-    return dict.__delitem__(self,key);
+      return dict.__delattr__(self,name);
+    return dict.__delitem__(self,name);
 
 
 class record (dict):
@@ -289,15 +289,15 @@ class record (dict):
     return dict.items(self);
   def values (self):  
     self._resolve_all_lazy_refs();
-    return dict.items(self);
+    return dict.values(self);
   # itervalues(): we need to resolve all lazy refs first
   def itervalues (self):
     self._resolve_all_lazy_refs();
-    return getattr(dict, "itervalues", dict.items)(self);
+    return iter(dict.values(self));
   # iteritems(): we need to resolve all lazy refs first
   def iteritems (self):
     self._resolve_all_lazy_refs();
-    return getattr(dict, "iteritems", dict.items)(self);
+    return iter(dict.items(self));
   # __getattr__: dict contents are exposed as extra attributes, lazy refs resolved
   def __getattr__(self,name):
     if name.startswith('__'):
@@ -324,7 +324,7 @@ class record (dict):
   # __delattr__: deletes key
   def __delattr__(self,name):
     if name.startswith('__'):
-      return dict.__delattr__(self,name,value);
+      return dict.__delattr__(self,name);
     try:   key = self.make_key(name);
     except ValueError as info: raise AttributeError(info);
     return dict.__delitem__(self,key);
@@ -365,7 +365,7 @@ class record (dict):
     items = [];
     for (key,value) in dictiter:
       items += ["%s=%s" % (key,str(value)) ];
-    return "{ " + string.join(items,', ') + " }";
+    return "{ " + ', '.join(items) + " }";
   # __repr__: official form
   def __repr__ (self):
     dictiter = iter(list(self.items()));
@@ -384,10 +384,10 @@ class record (dict):
     return value;
   # popitem: lazy refs resolved
   def popitem (self):
-    value = dict.popitem(self);
+    key,value = dict.popitem(self);
     if isinstance(value,lazy_objref):
       value = value.resolve();
-    return value;
+    return key,value;
   # field_names: list of dictionary keys  
   def field_names (self):
     "returns a list of field names, in underscore-separator format";
-- 
2.43.0


From 0996c44223f44297c459da30e77439b0a3d9bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 17/85] fix: deadlocks in multithreaded polling (waiting
 threads run only their own work orders; abandoned polls wait for orders in
 progress)

---
 MEQ/src/MTPool.cc      | 27 +++++++++++++++--
 MEQ/src/MTPool.h       | 16 ++++++++--
 MEQ/src/NodeNursery.cc | 66 +++++++++++++++++++++++++-----------------
 3 files changed, 77 insertions(+), 32 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index b8b874f..43dc598 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -63,7 +63,6 @@ void stop  ()
 
 Brigade::Brigade (int nwork,int max_busy,Thread::Mutex::Lock *plock)
 {
-  workers_.reserve(128);
   Thread::Mutex::Lock lock;
   if( !plock )
     plock = &lock;
@@ -294,17 +293,41 @@ void Brigade::finishWithWorkOrder (AbstractWorkOrder *wo)
   delete wo;
 }
 
-void Brigade::clearQueue (const NodeNursery &client)
+int Brigade::clearQueue (const NodeNursery &client)
 {
   Thread::Mutex::Lock lock(cond());
+  int count = 0;
   for( WorkOrderQueue::iterator iter = wo_queue_.begin(); iter != wo_queue_.end(); )
   {
     WorkOrder *wo = dynamic_cast<WorkOrder*>(*iter);
     if( wo && &(wo->clientref) == &client )
+    {
       wo_queue_.erase(iter++);
+      delete wo;
+      count++;
+    }
     else
       ++iter;
   }
+  return count;
+}
+
+AbstractWorkOrder * Brigade::getClientWorkOrder (const NodeNursery &client)
+{
+  for( WorkOrderQueue::iterator iter = wo_queue_.begin(); iter != wo_queue_.end(); ++iter )
+  {
+    WorkOrder *wo = dynamic_cast<WorkOrder*>(*iter);
+    if( wo && &(wo->clientref) == &client )
+    {
+      wo_queue_.erase(iter);
+      ++nthr_[wo->depth()];
+      cdebug1(2)<<sdebug(1)+" got own queued order\n";
+      // give the next order to another thread
+      awakenWorker();
+      return wo;
+    }
+  }
+  return 0;
 }
 
 // marks thread as blocked or unblocked
diff --git a/MEQ/src/MTPool.h b/MEQ/src/MTPool.h
index 44f3dde..ce722c6 100644
--- a/MEQ/src/MTPool.h
+++ b/MEQ/src/MTPool.h
@@ -29,6 +29,7 @@
 #include <TimBase/Timer.h>
 #include <MEQ/NodeNursery.h>
 #include <list>
+#include <deque>
 
 namespace Meq
 {
@@ -150,8 +151,8 @@ namespace Meq
         }
 
         // Clears the brigade's work order queue of WorkOrders associated with the
-        // given NodeNursery
-        void clearQueue (const NodeNursery &client);
+        // given NodeNursery. Returns number of orders discarded.
+        int clearQueue (const NodeNursery &client);
 
         // gets next work order from the queue.
         // !!! The caller must obtain a lock on cond() before calling this.
@@ -165,6 +166,14 @@ namespace Meq
         // Ownership of order object is transferred to caller.
         // If returning a WO, marks thread as busy.
         AbstractWorkOrder * getWorkOrder (bool wait=true,int mindepth=0);
+
+        // gets next work order placed by the given client, or 0 if none are queued.
+        // This is what a thread waiting for a nursery's children should use: had it
+        // picked up someone else's order, that order could end up waiting for a node
+        // being executed further up the thread's own stack.
+        // !!! The caller must obtain a lock on cond() before calling this.
+        // Ownership of order object is transferred to caller.
+        AbstractWorkOrder * getClientWorkOrder (const NodeNursery &client);
         
         // finishes with work order, deallocates object
         void finishWithWorkOrder (AbstractWorkOrder *wo);
@@ -230,7 +239,8 @@ namespace Meq
         WorkOrderQueue wo_queue_;
 
       // worker threads
-        std::vector<WorkerData> workers_;
+        // (a deque, since threads hold on to a reference to their entry)
+        std::deque<WorkerData> workers_;
 
         // number of busy threads per each tree depth
         std::vector<int> nthr_;
diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 8448c56..37fff72 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -193,6 +193,7 @@ int NodeNursery::startAsyncPoll (const Request &req,int depth)
   if( mt_checkBrigadeAvailability(lock,req) )
   {
     mt.polling_ = true;
+    mt.abandon_ = false;
     mt.child_retcount_ = 0;
     mt.child_retqueue_.reserve(numChildren());
     mt.child_retqueue_.resize(0);
@@ -233,11 +234,14 @@ int NodeNursery::startAsyncPoll (const Request &req,int depth)
 // when operating in async poll mode (i.e. Solver)
 void NodeNursery::mt_receiveAsyncChildResult (int ichild,MTPool::WorkOrder &res)
 {
-  // do nothing if poll is already finished (this may be possible if the
-  // main thread aborted execute())
-  if( !mt.polling_ )
-    return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
+  // if poll is being abandoned, only count the order as completed
+  if( mt.abandon_ )
+  {
+    mt.child_retcount_++;
+    mt.child_poll_cond_.broadcast();
+    return;
+  }
   // store result in child result queue
   mt.child_retqueue_.push_back(MT_ChildResult());
   MT_ChildResult &qres = mt.child_retqueue_.back();
@@ -255,10 +259,6 @@ void NodeNursery::mt_receiveAsyncChildResult (int ichild,MTPool::WorkOrder &res)
 // when doing a background poll
 void NodeNursery::mt_receiveBackgroundResult (int ichild,MTPool::WorkOrder &res)
 {
-  // do nothing if poll is already finished (this may be possible if the
-  // main thread aborted execute())
-  if( !mt.polling_ )
-    return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
   res.resref.detach(); // discard result straight off but do store the return code
   child_retcodes_[ichild] = res.retcode;
@@ -283,14 +283,17 @@ void NodeNursery::mt_abortPoll ()
 {
   if( !mt.cur_brigade_ )
     return;
-  Thread::Mutex::Lock lock(mt.cur_brigade_->cond());
+  Thread::Mutex::Lock lock(mt.child_poll_cond_);
   mt.abandon_ = true;
-  mt.polling_ = false;
+  lock.release();
   // clear out orders placed by us
-  mt.cur_brigade_->clearQueue(*this);
+  int count = mt.cur_brigade_->clearQueue(*this);
+  // wait for orders already being executed to finish, since they will
+  // deliver their results to us
+  lock.relock(mt.child_poll_cond_);
+  mt.child_retcount_ += count;
   lock.release();
-  // clean up (leaving brigade if needed)
-  mt_cleanupAfterPoll();
+  mt_waitForEndOfPoll();
 }
 
 // this is called to wait for an mt poll to finish
@@ -300,11 +303,11 @@ void NodeNursery::mt_waitForEndOfPoll ()
     return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
   // loop until all children have returned a result
-  while( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+  while( mt.child_retcount_ < mt.numchildren_ )
   {
-    // else grab a work order for ourselves
+    // else grab one of our work orders for ourselves
     Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
-    MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
+    MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getClientWorkOrder(*this);
     // if there's nothing on the queue, then we have to wait for all worker
     // threads to finish and deliver a result, so just go to sleep
     if( !wo )
@@ -368,16 +371,16 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
         mt.child_retqueue_.pop_back();
         return ichild;
       }
-      // no result on queue, so we can grab a work order from the brigade queue
+      // no result on queue, so we can grab one of our work orders from the brigade queue
       lock.release();
       Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
-      MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
+      MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getClientWorkOrder(*this);
       // if there's nothing on the queue, then we have to wait for all worker
       // threads to finish and deliver a result, so just go to sleep
       if( !wo )
       {
         lock.relock(mt.child_poll_cond_);
-        if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+        if( mt.child_retqueue_.empty() && mt.child_retcount_ < mt.numchildren_ )
         {
           MTPool::Brigade::markThreadAsBlocked(name());
           becomeIdle();
@@ -432,9 +435,13 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
 void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
 {
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
-  // do nothing if poll is already finished or is being abandoned
-  if( !mt.polling_ || mt.abandon_ )
+  // if poll is being abandoned, only count the order as completed
+  if( mt.abandon_ )
+  {
+    if( ++mt.child_retcount_ >= mt.numchildren_ )
+      mt.child_poll_cond_.broadcast();
     return;
+  }
   // store result in child result queue
   (*mt.pchildres_)[ichild].xfer(res.resref);
   child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;
@@ -465,8 +472,12 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
   if( mt.abandon_ )
   {
     lock.release();
-    lock.relock(mt.cur_brigade_->cond());
-    mt.cur_brigade_->clearQueue(*this);
+    int count = mt.cur_brigade_->clearQueue(*this);
+    // the discarded orders will never be completed, so count them here
+    lock.relock(mt.child_poll_cond_);
+    mt.child_retcount_ += count;
+    if( mt.child_retcount_ >= mt.numchildren_ )
+      mt.child_poll_cond_.broadcast();
   }
 }
 
@@ -513,7 +524,7 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
       {
         // at this point we hold a lock on the brigade queue
         // get a WO back from the queue since we'll be executing it ourselves
-        MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
+        MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getClientWorkOrder(*this);
         // release queue lock and go on to fill WO for first child
         lock.release();
         if( wo )
@@ -523,10 +534,10 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
           lock.relock(mt.cur_brigade_->cond());
           continue;
         }
-        // null from queue means either no more work orders, or too many busy threads busy
-        // either way, sleep until a child has returned
+        // null from queue means all our work orders have been taken up by other
+        // threads, so sleep until they have been completed
         Thread::Mutex::Lock lock2(mt.child_poll_cond_);
-        if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+        if( mt.child_retcount_ < mt.numchildren_ )
         {
           MTPool::Brigade::markThreadAsBlocked(name());
           becomeIdle();
@@ -628,6 +639,7 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
   {
     background_poll_in_progress_ = true;
     mt.polling_ = true;
+    mt.abandon_ = false;
     mt.child_retcount_ = 0;
     mt.child_retqueue_.reserve(numChildren());
     mt.child_retqueue_.resize(0);
-- 
2.43.0


From 8baadc12e0c6ada337191849a5c34d06f05f389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 18/85] fix: ReqMux: return the fail result of the selected
 child along with its fail code

---
 MeqNodes/src/ReqMux.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/ReqMux.cc b/MeqNodes/src/ReqMux.cc
index b9416ca..638bac3 100644
--- a/MeqNodes/src/ReqMux.cc
+++ b/MeqNodes/src/ReqMux.cc
@@ -65,8 +65,12 @@ int ReqMux::pollChildren (Result::Ref &resref,
   // was explicitly set)
   if( retcode&(RES_FAIL|RES_MISSING) )
     return retcode;
-  else
-    return children().childRetcode(which_result_);
+  // else the retcode is that of the designated child. If that one is a fail, the 
+  // result must go along with it, since getResult() is not called after a fail
+  retcode = children().childRetcode(which_result_);
+  if( retcode&RES_FAIL )
+    resref = childres[which_result_];
+  return retcode;
 }
 
 int ReqMux::discoverSpids (Result::Ref &resref,
-- 
2.43.0


From 4ecac4a99e15a2074eaa1a9f475b05a256792e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 19/85] fix: python ints that do not fit a C int are passed as
 longs rather than silently truncated

---
 OCTOPython/src/DataConv.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/OCTOPython/src/DataConv.cc b/OCTOPython/src/DataConv.cc
index d84fbcb..6ecbcf3 100644
--- a/OCTOPython/src/DataConv.cc
+++ b/OCTOPython/src/DataConv.cc
@@ -348,7 +348,13 @@ TypeId pyToDMI_Type (PyObject *obj)
   if( obj == Py_None ) 
     return TpDMIObjRef;
   else if( PyInt_Check(obj) )
-    return Tpint;
+  {
+    // values that do not fit into an int need a long (out-of-range for a 
+    // long is caught on conversion)
+    int overflow = 0;
+    long value = PyLong_AsLongAndOverflow(obj,&overflow);
+    return overflow || value != long(int(value)) ? Tplong : Tpint;
+  }
   else if( PyLong_Check(obj) )
     return Tplong;
   else if( PyFloat_Check(obj) )
@@ -415,13 +421,12 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
           }
           break;
     case Tplong_int:
+        {
+          long value = PyLong_AsLong(obj);
           if( pvec0 )
-            (*pvec0)[pvec_pos] = PyLong_AsLong(obj);
-          else // single numeric scalar -- convert to DatArray
-          {
-            objref <<= parr = new DMI::NumArray(Tplong,LoShape(1));
-            *static_cast<long*>(parr->getDataPtr()) = PyLong_AsLong(obj);
-          }
+            (*pvec0)[pvec_pos] = value;
+          else // NumArrays of longs are not supported, so use a scalar Vec
+            objref <<= new DMI::Vec(Tplong,-1,&value);
           if( PyErr_Occurred() )
           {
             if( PyErr_ExceptionMatches(PyExc_OverflowError) )
@@ -429,6 +434,7 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
             throwErrorOpt(Type,"unexpected error: "+string(PyErr_Occurred()->ob_type->tp_name));
           }
           break;
+        }
     case Tpdouble_int:
           if( pvec0 )
             (*pvec0)[pvec_pos] = PyFloat_AS_DOUBLE(obj);
@@ -524,6 +530,12 @@ int pyToDMI (ObjRef &objref,PyObject *obj,TypeId objtype,DMI::Vec *pvec0,int pve
               // base is DMI::Record, actual type is Meq::Result)
               TypeId type = getDMIType(*item);
               if( !type )
+              {
+                PyErr_Clear();
+                type = basetype;
+              }
+              // python has one integer type, DMI has two
+              else if( basetype == Tplong )
                 type = basetype;
               // set sequence type if not set
               if( !seqtype )
-- 
2.43.0


From eb851b7dfe688fdbab42164662ded51f44a19a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 20/85] fix: BOIO keeps reporting end of file when the file
 ends inside an object header

---
 DMI/src/BOIO.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 1f010f1..e192c7d 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -169,7 +169,10 @@ TypeId BOIO::nextType ()
     FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
     // check for EOF again
     if( feof(fp) )
+    {
+      header.tid = 0; // may have been partially read
       return 0;
+    }
     Throw("unknown error reading file "+fname);
   }
   return header.tid;
-- 
2.43.0


From 7d5c0b132477abac64f09cd5ddca5596b659059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 21/85] fix: hiid.as_str() works under Python 3

---
 OCTOPython/src/octopython.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/OCTOPython/src/octopython.cc b/OCTOPython/src/octopython.cc
index 56b1e3e..98a63a4 100644
--- a/OCTOPython/src/octopython.cc
+++ b/OCTOPython/src/octopython.cc
@@ -104,8 +104,9 @@ static PyObject * string_to_hiid (PyObject *, PyObject *args)
 static PyObject * hiid_to_string (PyObject *, PyObject *args)
 {
   PyObject *list;
-  char sep = '.';
-  if( !PyArg_ParseTuple(args, "O|c", &list,&sep) )
+  const char *sep = ".";
+  // NB: under Python 3, the "c" format does not accept a str
+  if( !PyArg_ParseTuple(args, "O|s", &list,&sep) )
     return NULL;
   HIID id;
   try
@@ -113,7 +114,7 @@ static PyObject * hiid_to_string (PyObject *, PyObject *args)
     convertSeqToHIID(id,list);
   }
   catchStandardErrors(NULL);
-  string str = id.toString(sep);
+  string str = id.toString(sep[0]);
   return PyString_FromString(str.c_str()); // return NEW REF
 }
 
-- 
2.43.0


From 13f0c0f050b98f988b77948749a0c8558165cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 22/85] fix: string form of ids with empty elements can be
 parsed back

---
 DMI/src/HIID.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DMI/src/HIID.cc b/DMI/src/HIID.cc
index d57ea1e..324ce79 100644
--- a/DMI/src/HIID.cc
+++ b/DMI/src/HIID.cc
@@ -208,7 +208,9 @@ string HIID::toString (char separator,bool mark_lit) const
       bool newsep = ( *iter == AidSlash || *iter == AidRange );
       if( !sep && !newsep )
         result += separator;
-      result += (*iter).toString();
+      // empty elements are implied by the separators around them
+      if( *iter != AidEmpty || size() == 1 )
+        result += (*iter).toString();
       sep = newsep;
     }
   }
-- 
2.43.0


From 9e57a4fd0d6eeb1388c471eccb5139101780e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 23/85] fix: DMI::List::get() with a negative or an
 out-of-range index

---
 DMI/src/List.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/DMI/src/List.cc b/DMI/src/List.cc
index 41c23d0..1a768a9 100644
--- a/DMI/src/List.cc
+++ b/DMI/src/List.cc
@@ -63,7 +63,6 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   if( n<0 )
   {
     ItemList::const_reverse_iterator riter = items.rbegin();
-    n++;
     while( n<0 && riter != items.rend() )
       ++n,++riter;
     FailWhen(n,"index out of range"); 
@@ -72,12 +71,9 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   else 
   {
     ItemList::const_iterator iter = items.begin();
-    while( n>0 )
-    {
-      n--;
-      iter++;
-      FailWhen(iter == items.end(),"index out of range"); 
-    }
+    while( n>0 && iter != items.end() )
+      --n,++iter;
+    FailWhen(iter == items.end(),"index out of range"); 
     return iter;
   }
 }
-- 
2.43.0


From b4feb0d13fdb4f5675a69366d3c50140b4eb1312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 24/85] fix: Polc: changing the shape of one-dimensional
 coefficients keeps them in place

---
 MEQ/src/Polc.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 31378d9..073fb47 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -651,15 +651,21 @@ void Polc::setCoeffShape(const LoShape & shape){
     i[j]=0;
   for(int n=0;n<N;n++){
     int element=0;
-    for(int j=0;j<ranknew&&j<rank;j++)
+    for(int j=0;j<ranknew;j++)
       {//calculate position
 	element*=shape[j];
-	element+=i[j];
-	if(i[j]>0 && (j>int(shape.size())||i[j]>=shape[j]))
-	  element=Nnew;
+	if(j<rank)
+	  {
+	    element+=i[j];
+	    if(i[j]>=shape[j])
+	      element=Nnew;
+	  }
 	//dont fill this one
 	//we can go faster in case we are outside the scope of the new array
       }
+    for(int j=ranknew;j<rank;j++)
+      if(i[j]>0)
+	element=Nnew;
     for(int j=rank-1;j>=0;j--)
       {
 	//update coordinates, all this is necessary to allow N-dimensional stuff....
-- 
2.43.0


From 95356ed0c407ffa3940ce80b0400fc686a921836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 25/85] fix: Polc: rescale to the solve domain along the axes
 that the polynomial is defined over

---
 MEQ/src/Polc.cc | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 073fb47..42cdb13 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -443,14 +443,16 @@ void Polc::changeSolveDomain(const Domain & solveDomain){
   if(!hasDomain()) return; //nothing to change
     else{
       const Domain &valDomain =  domain(); //validity domain
-      std::vector<double> newoffsets(2);
-      std::vector<double> newscales(2);
-      for(int axisi=0;axisi<2;axisi++){
-	newoffsets[axisi] = solveDomain.start(axisi)*valDomain.end(axisi)-
-	  solveDomain.end(axisi)*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain.start(axisi)-solveDomain.end(axisi);
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain.end(axisi) - solveDomain.start(axisi);
+      const int nax = std::min(rank(),2);
+      std::vector<double> newoffsets(nax);
+      std::vector<double> newscales(nax);
+      for(int axisi=0;axisi<nax;axisi++){
+	const int iaxis = getAxis(axisi);
+	newoffsets[axisi] = solveDomain.start(iaxis)*valDomain.end(iaxis)-
+	  solveDomain.end(iaxis)*valDomain.start(iaxis);
+	newoffsets[axisi] /= solveDomain.start(iaxis)-solveDomain.end(iaxis);
+	newscales[axisi] = valDomain.end(iaxis) - valDomain.start(iaxis);
+	newscales[axisi] /= solveDomain.end(iaxis) - solveDomain.start(iaxis);
 
       }
      transformCoeff(newoffsets,newscales);
@@ -467,13 +469,15 @@ void Polc::changeSolveDomain(const Domain & solveDomain){
     if(!hasDomain()) return; //nothing to change
     else{
       const Domain &valDomain =  domain(); //validity domain
-      std::vector<double> newoffsets(2);
-      std::vector<double> newscales(2);
-      for(int axisi=0;axisi<2;axisi++){
-	newoffsets[axisi] = solveDomain[0]*valDomain.end(axisi)-
-	  solveDomain[1]*valDomain.start(axisi);
+      const int nax = std::min(rank(),2);
+      std::vector<double> newoffsets(nax);
+      std::vector<double> newscales(nax);
+      for(int axisi=0;axisi<nax;axisi++){
+	const int iaxis = getAxis(axisi);
+	newoffsets[axisi] = solveDomain[0]*valDomain.end(iaxis)-
+	  solveDomain[1]*valDomain.start(iaxis);
 	newoffsets[axisi] /= solveDomain[0]-solveDomain[1];
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[axisi] = valDomain.end(iaxis) - valDomain.start(iaxis);
 	newscales[axisi] /= solveDomain[1] - solveDomain[0];
 
       }
@@ -538,8 +542,8 @@ void Polc::transformCoeff(const std::vector<double> & newoffsets,const std::vect
   double C[NX][NY];
   double oldOffset[MaxPolcRank];
   double oldScale[MaxPolcRank];
-  double diffOffset[MaxPolcRank];
-  double diffScale[MaxPolcRank];
+  double diffOffset[MaxPolcRank] = { 0,0 };
+  double diffScale[MaxPolcRank] = { 1,1 };
 
 
   double* coeff = static_cast<double*>(coeffWr().getDataPtr());
-- 
2.43.0


From 8f9cffc714c99191cae311eb6875e66aa875281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 26/85] fix: Polc: 2D polynomials over more than 10
 coefficients, or over axes in descending order

---
 MEQ/src/Polc.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 42cdb13..488b2c0 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -324,8 +324,13 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
   }
   // Create matrix for the main value and keep a pointer to its storage
   double* value = vs.setValue(new Vells(double(0),res_shape,true)).realStorage();
+  std::vector<double> powersy(ncy);
+  // position of a point in the output arrays: these are in order of axes, which is
+  // not necessarily the order of the polynomial's variables
+  const bool swapped = getAxis(0) > getAxis(1);
+  const int stride_x = swapped ? 1 : ndy;
+  const int stride_y = swapped ? ndx : 1;
   // Iterate over all cells in the domain.
-  // The Y index iterates faster, hence the outer loop is over j over X values
   for (int j=0; j<ndx; j++)
   {
     double valx = grid[0](j);
@@ -349,7 +354,6 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
       }
       if( makePerturbed )
       {
-        double powersy[10];
         double powy = 1;
         for (int iy=0; iy<ncy; iy++) {
           powersy[iy] = powy;
@@ -361,10 +365,8 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
           for (int iy=0; iy<ncy; iy++) {
             double d = perts[ik] * powersy[iy] * powx;
             for( int ipert=0; ipert<makePerturbed; ipert++,d=-d ) {
-              if( pertValPtr[ipert][ik] ) {
-                *(pertValPtr[ipert][ik]) = total + d;
-                pertValPtr[ipert][ik]++;
-              }
+              if( pertValPtr[ipert][ik] )
+                pertValPtr[ipert][ik][j*stride_x+i*stride_y] = total + d;
             }
             ik++;
           }
@@ -372,7 +374,7 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
         }
       }
       cdebug(4)<<"value  "<<i<<","<<j<<" ("<<valx<<","<<valy<<") : "<<total<<endl;
-      *value++ = total;
+      value[j*stride_x+i*stride_y] = total;
     } // endfor(i) over cells
   } // endfor(j) over cells
 
-- 
2.43.0


From 3e4eaef4a30164f66c2244a3321a8339dec8acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 27/85] fix: Polc, ComposedPolc: correct limits of the domain
 of validity

---
 MEQ/src/ComposedPolc.cc | 2 +-
 MEQ/src/Polc.cc         | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 8751bb6..084a121 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -275,7 +275,7 @@ void ComposedPolc::validateContent (bool recursive)
 	while(k<maxk  && centergrid[axisi](k)<polcdom.start(axisi)) k++;
 	starti[axisi] = k;
 	k=std::min(res_shape[axisi]-1,int(startgrid[axisi].size()-1));
-	while(k>0 && (centergrid[axisi](k)>polcdom.end(axisi))) k--;
+	while(k>=0 && (centergrid[axisi](k)>polcdom.end(axisi))) k--;
 	endi[axisi] = k;
 	cdebug(3)<<"axis : "<<axisi<<" begin : "<<starti[axisi]<<" end : "<<endi[axisi]<<endl;
 	if(endi[axisi]<starti[axisi]) break;
diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 488b2c0..6172720 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -183,14 +183,15 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
       FailWhen(!cells.isDefined(iaxis),
             "Meq::Polc: axis " + Axis::axisId(iaxis).toString() +
             " is not defined in Cells");
-      if(cells.domain().start(i)<domain().start(i) ||cells.domain().end(i)>domain().end(i) )
+      if(domain().isDefined(iaxis) && 
+         (cells.domain().start(iaxis)<domain().start(iaxis) || cells.domain().end(iaxis)>domain().end(iaxis)) )
 	{
 	  LoVec_double tempgrid = ( cells.center(iaxis));
 	  int k=0;
-	  while(tempgrid(k)< domain().start(i) && k < tempgrid.size()){k++;}
+	  while(k < tempgrid.size() && tempgrid(k)< domain().start(iaxis)){k++;}
 	  int firstk=k;
 	  k=tempgrid.size()-1;
-	  while(tempgrid(k)>domain().end(i) && k > 0){k--;}
+	  while(k >= 0 && tempgrid(k)>domain().end(iaxis)){k--;}
 	  int lastk=k;
 	  //reduce grid, such that it fits on domain of this funklet
 	  if(lastk<firstk) return;
-- 
2.43.0


From 0d3692e2f1bec0004344ae827eca9ebd8f46806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 28/85] fix: ComposedPolc: parts of zero value, parts covering
 a single cell and parts along other axes are evaluated properly

---
 MEQ/src/ComposedPolc.cc | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 084a121..9bd65e4 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -149,10 +149,9 @@ void ComposedPolc::validateContent (bool recursive)
 	const LoShape fshape= funklet.getCoeffShape ();
         for(int axisi= 0; axisi<Axis::MaxAxis;axisi++)
         {
-	    if(axisHasShape_[axisi]) continue;
-
-	    if(fshape.size()>axisi && fshape[axisi]>1 )
-	      axisHasShape_[axisi] |= 1;
+	    for( int j=0; j<int(fshape.size()); j++ )
+	      if( fshape[j]>1 && funklet.getAxis(j)==axisi )
+	        axisHasShape_[axisi] |= 1;
 
 	    //cehck if domain changes around this axis
 	    if( newdom.isDefined(axisi) &&
@@ -247,7 +246,9 @@ void ComposedPolc::validateContent (bool recursive)
 
       //if funklet is constant, we dont have to do all the work, just fill the fitting vells
       double constpart=0;
-      double constpert[2];
+      std::vector<double> constpert[2];   // one value per spid
+      constpert[0].resize(nr_spids);
+      constpert[1].resize(nr_spids);
       if(partfunk.isConstant())
 	{
 	  constpart= partfunk.getCoeff0();
@@ -255,7 +256,7 @@ void ComposedPolc::validateContent (bool recursive)
 	    {
 	      double d = partfunk.getPerturbation(0);
 	      for(int ipert=0;ipert<makePerturbed;ipert++,d=-d )
-		constpert[ipert]=constpart+d;
+		constpert[ipert].assign(nr_spids,constpart+d);
 	    }
 	}
       else isConstant=0;
@@ -289,7 +290,7 @@ void ComposedPolc::validateContent (bool recursive)
       if(!isConstant)
 	{
 	  partfunk.evaluate(partvs,cells,makePerturbed);
-	  if(partvs.isNull ()) continue;
+	  if(!partvs.hasValue()) continue; // nothing of this domain within the cells
 	}
       int maxnx=1;
       int maxny=1;
@@ -323,7 +324,8 @@ void ComposedPolc::validateContent (bool recursive)
 	    for(int ipert=0;ipert<makePerturbed;ipert++){
 	      if(partvells.isScalar())
 		{
-		  constpert[ipert] = (partvs.getPerturbedValue(0,ipert)).getScalar<double>();
+		  for(int ispid=0;ispid<nr_spids;ispid++)
+		    constpert[ipert][ispid] = (partvs.getPerturbedValue(ispid,ipert)).getScalar<double>();
 		}
 	      else
 		{
@@ -351,7 +353,8 @@ void ComposedPolc::validateContent (bool recursive)
 	  fill_const_value(nr_axis,starti,endi,res_shape,val,0,value,constpart);
 	  if( makePerturbed )
 	    for( int ipert=0; ipert<makePerturbed; ipert++ )
-	      fill_const_value(nr_axis,starti,endi,res_shape,val,0, pertValPtr[ipert][0],constpert[ipert]);
+	      for( int ispid=0; ispid<nr_spids; ispid++ )
+	        fill_const_value(nr_axis,starti,endi,res_shape,val,0, pertValPtr[ipert][ispid],constpert[ipert][ispid]);
 	}
       else
 	{// not constant assume freq,time polc for now
@@ -587,10 +590,13 @@ void ComposedPolc::validateContent (bool recursive)
     setCoeff(partfunk.coeff());
     // and set axisHasShape_ flag
     for( uint i=0; i<shape.size(); i++ )
+    {
+      const int iaxis = partfunk.getAxis(i);
       if( shape[i] > 1 )
-        axisHasShape_[i] |= 1;
+        axisHasShape_[iaxis] |= 1;
       else
-        axisHasShape_[i] &= ~1;
+        axisHasShape_[iaxis] &= ~1;
+    }
   };
 
 }//namespace Meq
-- 
2.43.0


From e2ce060f0d5cd06c4c15bc6816e5cefade44e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 29/85] fix: ComposedPolc: two-sided perturbations of tiled
 polynomials

---
 MEQ/src/ComposedPolc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 9bd65e4..59d90b3 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -286,7 +286,7 @@ void ComposedPolc::validateContent (bool recursive)
 
 
 
-      VellSet partvs;
+      VellSet partvs(0,makePerturbed);
       if(!isConstant)
 	{
 	  partfunk.evaluate(partvs,cells,makePerturbed);
-- 
2.43.0


From 42ee49fe5426abfab68fec20ebcce476eb797192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 30/85] fix: ComposedPolc: requests that extend beyond the
 parts along an axis that all parts share

---
 MEQ/src/ComposedPolc.cc | 18 +++++++++++++++++-
 MEQ/src/ComposedPolc.h  |  1 +
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/ComposedPolc.cc b/MEQ/src/ComposedPolc.cc
index 59d90b3..3096440 100644
--- a/MEQ/src/ComposedPolc.cc
+++ b/MEQ/src/ComposedPolc.cc
@@ -172,6 +172,22 @@ void ComposedPolc::validateContent (bool recursive)
   }
 
 
+  // true if all funklets cover all of the given points along an axis
+  bool ComposedPolc::allInside (int axis,const LoVec_double &points) const
+  {
+    const DMI::List & funklist = funkletList();
+    for( DMI::List::const_iterator iter = funklist.begin(); iter != funklist.end(); iter++ )
+    {
+      const Domain & dom = iter->as<Funklet>().domain();
+      if( dom.isDefined(axis) )
+        for( int i=0; i<points.size(); i++ )
+          if( points(i) < dom.start(axis) || points(i) > dom.end(axis) )
+            return false;
+    }
+    return true;
+  }
+
+
   void ComposedPolc::do_evaluate (VellSet &vs,const Cells &cells,
                             const std::vector<double> &perts,
                             const std::vector<int>    &spidIndex,
@@ -209,7 +225,7 @@ void ComposedPolc::validateContent (bool recursive)
 
 
     for(int iaxis=0;iaxis<nr_axis;iaxis++)
-      if(axisHasShape_[iaxis])
+      if(axisHasShape_[iaxis] || !allInside(iaxis,centergrid[iaxis]))
 	res_shape[iaxis]=cells.ncells(iaxis);
       else
     	res_shape[iaxis]=1;
diff --git a/MEQ/src/ComposedPolc.h b/MEQ/src/ComposedPolc.h
index 0c40df2..57f4085 100644
--- a/MEQ/src/ComposedPolc.h
+++ b/MEQ/src/ComposedPolc.h
@@ -119,6 +119,7 @@ namespace Meq
   double default_value_;
   int nr_funklets_;
   int axisHasShape_[Axis::MaxAxis];
+  bool allInside (int axis,const LoVec_double &points) const;
   const void fill_const_value(const int nr_axis,const int starti[],const int endi[],const Vells::Shape res_shape,int val[],int axisi,double *value,const double constpart) const ;
   };
 
-- 
2.43.0


From a107ceaec0d1ae73809500666b10a726765f2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 31/85] fix: Parm: a solution for a domain that is in the parm
 table replaces the entry rather than adding another

---
 MeqNodes/src/Parm.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/MeqNodes/src/Parm.cc b/MeqNodes/src/Parm.cc
index fcea788..e5efbbb 100644
--- a/MeqNodes/src/Parm.cc
+++ b/MeqNodes/src/Parm.cc
@@ -182,6 +182,22 @@ Funklet * Parm::findRelevantFunklet (Funklet::Ref &funkletref,const Domain &doma
 }
 
 
+// Sets the domain of a funklet. Funklet::setDomain() resets the dbid: if the funklet already
+// applies to this domain, then keep its dbid, so that it is saved to where it came from
+static void assignDomain (Funklet &funklet,const Domain &domain)
+{
+  Funklet::DbId dbid = funklet.getDbId();
+  if( funklet.hasDomain() &&
+      ( fabs(funklet.domain().start(0)-domain.start(0)) > 1e-16 ||
+        fabs(funklet.domain().start(1)-domain.start(1)) > 1e-16 ||
+        fabs(funklet.domain().end(0)-domain.end(0)) > 1e-16 ||
+        fabs(funklet.domain().end(1)-domain.end(1)) > 1e-16 ) )
+    dbid = -1;
+  funklet.setDomain(domain);
+  funklet.setDbId(dbid);
+}
+
+
 int Parm::initSolvable (Funklet &funklet,const Request &request)
 {
   // copy current domain into solvable funklet
@@ -193,7 +209,7 @@ int Parm::initSolvable (Funklet &funklet,const Request &request)
   cdebug(4)<<"init solvable "<<endl;
 
   //MMMMMcheck when and why we set domain
-  funklet.setDomain(request.cells().domain());
+  assignDomain(funklet,request.cells().domain());
   int nr = 0;
   funklet.clearSolvable();
 
@@ -415,7 +431,7 @@ Funklet * Parm::initFunklet (const Request &request,bool solve)
               }
             //only if the funklet doesnt match (resolution can change in non-tiling direction)
             newfunklet = initTiledFunklet(funkref,domain,cells);
-            funkref().setDomain(domain);
+            assignDomain(funkref(),domain);
             its_funklet_<<=funkref;
             if( cache_funklet_ )
               wstate()[FFunklet].replace() = its_funklet_->getState();
@@ -485,7 +501,7 @@ Funklet * Parm::initFunklet (const Request &request,bool solve)
 
       cdebug(3)<<"tiling funklet, "<<endl;
       Funklet *newfunklet = initTiledFunklet(funkref,domain,cells);
-      funkref().setDomain(domain);
+      assignDomain(funkref(),domain);
       its_funklet_<<=funkref;
       wstate()[FDomainId] = domain_id_ = rq_dom_id;
       wstate()[FDomain].replace() <<= &domain;
-- 
2.43.0


From 4a60c4cd6641be661e41e254337da1f471dca498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 32/85] fix: FastParmTable: constant funklets of subclasses of
 Polc are read back as such

---
 MEQ/src/FastParmTable.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index 3a537fb..a2ca533 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -380,8 +380,9 @@ Funklet::DbId FastParmTable::putCoeff (const string& parmName, const Funklet& fu
   makeKey(key,parmName,dom_id);
   // now store the funklet
   const Polc *polc = dynamic_cast<const Polc*>(&funklet);
-  // 0-degree polcs just have their c00 stored
-  if( polc && polc->isConstant() )
+  // 0-degree polcs just have their c00 stored (but not those of subclasses, since these
+  // would be read back as plain Polcs)
+  if( polc && polc->objectType() == TpMeqPolc && polc->isConstant() )
   {
     double c00 = polc->getCoeff0();
     if( !dpput(fdb_,key,keysize,reinterpret_cast<const char*>(&c00),sizeof(c00),DP_DOVER) )
-- 
2.43.0


From 8a8df7a1993828fb1b1d98962e81e34bbe62ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 33/85] fix: FastParmTable: entries saved after a writer was
 killed stay readable

---
 MEQ/src/FastParmTable.cc | 11 +++++++++++
 MEQ/src/FastParmTable.h  |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index a2ca533..2b86e75 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -83,6 +83,10 @@ FastParmTable::FastParmTable (const string& tablename,bool write,bool)
       Throw("error reading '%s/domains'");
   }
   dprintf(1)("read %d domains\n",ndom);
+  // a writer that was killed may have left part of an entry at the end of the file, drop this,
+  // since new entries are appended to the end
+  if( writing_ )
+    dropPartialDomain();
   // just in case, seek to new domain position
   fseek(fdomains_,ndom*sizeof(DomainEntry),SEEK_SET);
   // create/open funklet database
@@ -124,6 +128,12 @@ FastParmTable::~FastParmTable()
     free(prev_key.dptr);
 }
 
+void FastParmTable::dropPartialDomain ()
+{
+  if( ftruncate(fileno(fdomains_),off_t(domain_list_.size()*sizeof(DomainEntry))) < 0 )
+    throwErrno("can't truncate '%s/domains'");
+}
+
 void FastParmTable::openForWriting ()
 {
   if( writing_ )
@@ -135,6 +145,7 @@ void FastParmTable::openForWriting ()
   fdomains_ = fopen(domains_file_.c_str(),"a+b");
   if( !fdomains_ )
     throwErrno("can't reopen '%s/domains' for writing");
+  dropPartialDomain();
   fseek(fdomains_,domain_list_.size()*sizeof(DomainEntry),SEEK_SET);
   // reopen the funklet database
   if( fdb_ )
diff --git a/MEQ/src/FastParmTable.h b/MEQ/src/FastParmTable.h
index d1a2840..e28c7d7 100644
--- a/MEQ/src/FastParmTable.h
+++ b/MEQ/src/FastParmTable.h
@@ -140,6 +140,8 @@ private:
   
   // reopens table for writing, if it's not open for writing yet
   void openForWriting ();
+  // drops any partial domain entry from the end of the domains file
+  void dropPartialDomain ();
   
   // internal function, gets funklet with given DB key
   int getFunklet (Funklet::Ref &ref,const char *kbuf,int ksiz,int domain_index);
-- 
2.43.0


From 845ea58e70370595280af7638056e2125828e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 34/85] fix: Node: the state dependency flag is set by several
 threads

---
 MEQ/src/Node.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Node.h b/MEQ/src/Node.h
index 3c7071f..05551fe 100644
--- a/MEQ/src/Node.h
+++ b/MEQ/src/Node.h
@@ -35,6 +35,7 @@
 #include <MEQ/Cells.h>
 #include <MEQ/AID-Meq.h>
 #include <MEQ/TID-Meq.h>
+#include <atomic>
 #include <map>
 #include <vector>
 
@@ -776,7 +777,8 @@ class Node : public NodeFace
     //## primarily meant as a kludge against the Solver-ReqSeq conundrum.
     //## Nodes clear this flag in execute(), and set it via markStateDependency().
     //## The Solver clears this flag explicitly.
-    bool has_state_dep_;
+    //## (Since children may be executing in different threads, it is atomic.)
+    std::atomic<bool> has_state_dep_;
 
     //## profiling timers
     ProfilingTimers timers_;
-- 
2.43.0


From 78ad796d1023dee2d9072a54c7554d27f8ecdbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 35/85] fix: Parm: a funklet in use is tiled anew when the parm
 becomes solvable or the resolution changes

---
 MeqNodes/src/Parm.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/MeqNodes/src/Parm.cc b/MeqNodes/src/Parm.cc
index e5efbbb..730baf3 100644
--- a/MeqNodes/src/Parm.cc
+++ b/MeqNodes/src/Parm.cc
@@ -354,12 +354,14 @@ Funklet * Parm::initTiledFunklet(Funklet::Ref &funkletref,const Domain & domain,
 
 
   GetTiledDomains(domref,cells,domainV);
+  // note that this also replaces composed funklets that do not match the tiling
+  // (even if it comes out at a single tile) with their first component
+  if(checkTiledFunklet(funkletref,domainV))
+    return funkletref.dewr_p();
   if(domainV.size()<=1)
     {
       return funkletref.dewr_p();
     }
-  if(checkTiledFunklet(funkletref,domainV))
-    return funkletref.dewr_p();
 
 
   //now create funklet for every domain.
@@ -414,8 +416,11 @@ Funklet * Parm::initFunklet (const Request &request,bool solve)
   if( pfunklet )
     {
       funkref<<=pfunklet;
-      // reuse the funklet if domain and dataset do not change
-        if( !rq_dom_id.empty() && rq_dom_id == domain_id_ )
+      // reuse the funklet if domain and dataset do not change (unless the parm
+      // has become solvable in the meantime: if not tiled, a solvable funklet
+      // cannot be a composedpolc)
+        if( !rq_dom_id.empty() && rq_dom_id == domain_id_ &&
+            !(isSolvable() && !tiled_ && pfunklet->objectType()==TpMeqComposedPolc) )
         {
           if(!(tiled_||splined_) || (rq_res_id == res_id_)){
             cdebug(3)<<"current funklet request ID matches, re-using"<<endl;
@@ -430,7 +435,8 @@ Funklet * Parm::initFunklet (const Request &request,bool solve)
                 funkref<<=newfunklet;
               }
             //only if the funklet doesnt match (resolution can change in non-tiling direction)
-            newfunklet = initTiledFunklet(funkref,domain,cells);
+            if(tiled_ && isSolvable())
+              newfunklet = initTiledFunklet(funkref,domain,cells);
             assignDomain(funkref(),domain);
             its_funklet_<<=funkref;
             if( cache_funklet_ )
@@ -663,7 +669,11 @@ void Parm::setStateImpl (DMI::Record::Ref& rec, bool initializing)
   rec[FUsePrevious].get(_use_previous,initializing);
   rec[FConverged].get(converged_,initializing);
   rec[FSaveAll].get(ignore_convergence_,initializing);
+  // if parm becomes solvable, the current funklet may need to be tiled
+  bool was_solvable = solvable_;
   rec[FSolvable].get(solvable_,initializing);
+  if( solvable_ && !was_solvable )
+    res_id_ = HIID();
   rec[FIntegrated].get(integrated_,initializing);
   rec[FResetFunklet].get(reset_funklet_,initializing);
   rec[FIgnoreTime].get(ignore_time_,initializing);
@@ -680,6 +690,7 @@ void Parm::setStateImpl (DMI::Record::Ref& rec, bool initializing)
 
   const DMI::Record *tiling = rec[FTiling].as_po<DMI::Record>();
   if(tiling){
+    res_id_ = HIID();
     for(int i=0;i<Axis::MaxAxis;i++){
       tiling_[i]=0;
       (*tiling)[Axis::axisId(i)].get(tiling_[i],0);
-- 
2.43.0


From 86c6207198f4f739a2f26ab25ce4ee75cf77463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 36/85] fix: Solver: tilings that compare as unordered were
 taken for one another

---
 MeqNodes/src/Solver.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/MeqNodes/src/Solver.h b/MeqNodes/src/Solver.h
index d7a0a8b..4815750 100644
--- a/MeqNodes/src/Solver.h
+++ b/MeqNodes/src/Solver.h
@@ -207,15 +207,14 @@ private:
       int & operator [] (int i)
       { return dims[i]; }
 
+      // lexicographical comparison: this has to be a strict weak ordering,
+      // since DimVectors serve as map keys
       bool operator < (const DimVector &other) const
       {
-        bool equal = true;
         for(int i=0; i<Axis::MaxAxis; i++)
-          if( dims[i] > other.dims[i] )
-            return false;
-          else if( dims[i] < other.dims[i] )
-            equal = false;
-        return !equal;
+          if( dims[i] != other.dims[i] )
+            return dims[i] < other.dims[i];
+        return false;
       }
 
       bool operator == (const DimVector &other) const
-- 
2.43.0


From 6a139065da9689a187f97c4177b717d040f86134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 37/85] fix: Solver: parms tiled more finely than other parms

---
 MeqNodes/src/Solver.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/MeqNodes/src/Solver.cc b/MeqNodes/src/Solver.cc
index 8b1a834..29da2d5 100644
--- a/MeqNodes/src/Solver.cc
+++ b/MeqNodes/src/Solver.cc
@@ -570,7 +570,8 @@ inline void Solver::fillEqVectors (int itile,int npert,SpidInfo *pspi[],
   {
     SolveGroupData &sgd = sgd_[pspi[i]->solvegroup];
     valid &= isvalid( sgd.deriv_real[sgd.nderiv] = *deriv_iter[i] );
-    sgd.uk_index[sgd.nderiv] = pspi[i]->ssuki[itile];
+    // a parm may be tiled more finely than the solver, so use the tile of its own tiling
+    sgd.uk_index[sgd.nderiv] = pspi[i]->ssuki[pspi[i]->ptiling->cur_tile];
     sgd.nderiv++;
   }
   if( !valid )
@@ -579,7 +580,7 @@ inline void Solver::fillEqVectors (int itile,int npert,SpidInfo *pspi[],
     {
       cdebug(3)<<"equation for: ";
         for( int i=0; i<npert; i++ )
-          ::Debug::getDebugStream()<<pspi[i]->ssuki[itile]<<" ";
+          ::Debug::getDebugStream()<<pspi[i]->ssuki[pspi[i]->ptiling->cur_tile]<<" ";
         ::Debug::getDebugStream()<<"contains NANs or INFs, omitting\n";
     }
     return;
@@ -619,7 +620,8 @@ inline void Solver::fillEqVectors (int itile,int npert,SpidInfo *pspi[],
     SolveGroupData &sgd = sgd_[pspi[i]->solvegroup];
     valid &= isvalid( sgd.deriv_real[sgd.nderiv] = creal(*deriv_iter[i]) );
     valid &= isvalid( sgd.deriv_imag[sgd.nderiv] = cimag(*deriv_iter[i]) );
-    sgd.uk_index[sgd.nderiv] = pspi[i]->ssuki[itile];
+    // a parm may be tiled more finely than the solver, so use the tile of its own tiling
+    sgd.uk_index[sgd.nderiv] = pspi[i]->ssuki[pspi[i]->ptiling->cur_tile];
     sgd.nderiv++;
   }
   if( !valid )
@@ -628,7 +630,7 @@ inline void Solver::fillEqVectors (int itile,int npert,SpidInfo *pspi[],
     {
       cdebug(3)<<"equation for: ";
       for( int i=0; i<npert; i++ )
-        ::Debug::getDebugStream()<<pspi[i]->ssuki[itile]<<" ";
+        ::Debug::getDebugStream()<<pspi[i]->ssuki[pspi[i]->ptiling->cur_tile]<<" ";
       ::Debug::getDebugStream()<<"contains NANs or INFs, omitting\n";
     }
     num_invalid++;
@@ -1470,15 +1472,13 @@ void Solver::fillRider (Request::Ref &reqref,bool save_funklets,bool converged)
     int j=0;
     // fill updates for this node's spids, by fetching them from the solution
     // vector via the spid set indices
+    // (the parm expects the updates of each spid in the order of its own tiles)
     for( SpidSet::const_iterator ii = pui.spidset.begin(); ii != pui.spidset.end(); ii++ )
     {
-      Subsolver *pss = psubsolver(0,spids_[ii->first].solvegroup);
-      const LoMat_int &slice = ii->second;
-      for( int itile=0; itile<numSubtiles(); itile++ )
-      {
-        for( int i=slice(itile,0); i<slice(itile,1); i++ )
-          pupd[j++] = pss[itile].solution(i);
-      }
+      const SpidInfo &spi = spids_[ii->first];
+      Subsolver *pss = psubsolver(0,spi.solvegroup);
+      for( int i=0; i<spi.nuk; i++ )
+        pupd[j++] = pss[spi.ptiling->super_tile[i]].solution(spi.ssuki[i]);
     }
     // add save command if requested
     if( save_funklets )
-- 
2.43.0


From 1547de243fe900d385fa66b0fab24a21d745eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 38/85] fix: NodeNursery: an abandoned poll discarded the work
 orders of the next one

---
 MEQ/src/NodeNursery.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 37fff72..d333385 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -463,22 +463,21 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
     mt.abandon_ = true;
   // add time to profiling timer
   timer().add(res.timer);
-  // wake parent thread since it may be waiting for a child result
-  mt.child_retcount_++;
-  if( mt.child_retcount_ >= mt.numchildren_ )
-    mt.child_poll_cond_.broadcast();
   // if abandoning poll, clear work order queue. Due to the mutex lock
-  // above, this will happen only once
+  // above, this will happen only once. The discarded orders will never be
+  // completed, so count them here. Our own result is only counted afterwards,
+  // so that the parent can't move on to another poll in the meantime.
+  int count = 1;
   if( mt.abandon_ )
   {
     lock.release();
-    int count = mt.cur_brigade_->clearQueue(*this);
-    // the discarded orders will never be completed, so count them here
+    count += mt.cur_brigade_->clearQueue(*this);
     lock.relock(mt.child_poll_cond_);
-    mt.child_retcount_ += count;
-    if( mt.child_retcount_ >= mt.numchildren_ )
-      mt.child_poll_cond_.broadcast();
   }
+  // wake parent thread since it may be waiting for a child result
+  mt.child_retcount_ += count;
+  if( mt.child_retcount_ >= mt.numchildren_ )
+    mt.child_poll_cond_.broadcast();
 }
 
 
-- 
2.43.0


From d4bb1f3f03acbc297679aff996158c0e57ae65dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:08 +0000
Subject: [PATCH 39/85] fix: Node: the control status is updated by several
 threads

---
 MEQ/src/Node.cc      | 4 ++--
 MEQ/src/Node.h       | 2 +-
 MEQ/src/Node_init.cc | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 6cf6de5..6f04fce 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -294,7 +294,7 @@ void Node::setStateImpl (DMI::Record::Ref &rec,bool initializing)
   // apply any changes to control status
   if( cs0 != control_status_ )
   {
-    rec[FControlStatus] = control_status_;
+    rec[FControlStatus] = int(control_status_);
     forest_->newControlStatus(*this,cs0,control_status_);
   }
 
@@ -454,7 +454,7 @@ void Node::getSyncState (DMI::Record::Ref &ref)
       control_status_ &= ~CS_CACHED;
   }
   st[FRequestId]       = current_reqid_;
-  st[FControlStatus]   = control_status_;
+  st[FControlStatus]   = int(control_status_);
   st[FBreakpointSingleShot] = breakpoints_ss_;
   st[FBreakpoint] = breakpoints_;
   ref = staterec_;
diff --git a/MEQ/src/Node.h b/MEQ/src/Node.h
index 05551fe..4746d70 100644
--- a/MEQ/src/Node.h
+++ b/MEQ/src/Node.h
@@ -764,7 +764,7 @@ class Node : public NodeFace
     bool parent_status_published_;
 
     //## control_status word
-    int control_status_;
+    std::atomic<int> control_status_;
 
     //## cache policy setting
     int cache_policy_;
diff --git a/MEQ/src/Node_init.cc b/MEQ/src/Node_init.cc
index 8595a51..258daea 100644
--- a/MEQ/src/Node_init.cc
+++ b/MEQ/src/Node_init.cc
@@ -157,13 +157,13 @@ void Node::init ()
   catch( std::exception &exc )
   {
     // deactivate node
-    wstate()[FControlStatus] = control_status_ &= ~CS_ACTIVE;
+    wstate()[FControlStatus] = int(control_status_ &= ~CS_ACTIVE);
     ThrowMore(exc,"failed to init node '"+name()+"'");
   }
   catch( ... )
   {
     // deactivate node
-    wstate()[FControlStatus] = control_status_ &= ~CS_ACTIVE;
+    wstate()[FControlStatus] = int(control_status_ &= ~CS_ACTIVE);
     Throw("failed to init node '"+name()+"'");
   }
 }
-- 
2.43.0


From d3d924d8af566267240d780ad82cdf532c680910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:08 +0000
Subject: [PATCH 40/85] fix: WPInterface: a message transferred or modified by
 its receiver was delivered over and over

---
 OCTOPUSSY/src/WPInterface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index eb11668..a25bdd6 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -794,6 +794,8 @@ bool WPInterface::do_poll (ulong tick)
     // lock 
     receive_lock = true;
     res = Message::ACCEPT;
+    // the receiver gets a COW ref of its own, since it is free to modify
+    // or transfer it
     Message::Ref mref2(mref,DMI::COW);
     if( autoCatch() )
     {
@@ -806,7 +808,7 @@ bool WPInterface::do_poll (ulong tick)
       }
     }
     else  
-      res = receive(mref);
+      res = receive(mref2);
     receive_lock = false;
   }
   lock.relock(queue_cond);
-- 
2.43.0


From d63565b5b366725e55f071da5ed0939d35da38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:08 +0000
Subject: [PATCH 41/85] fix: WPInterface: publish(id) ignored its scope

---
 OCTOPUSSY/src/WPInterface.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index a25bdd6..fc6816c 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -1119,10 +1119,10 @@ int WPInterface::publish (Message::Ref &msg,int , int scope)
 }
 
 //##ModelId=3CBDACCC028F
-int WPInterface::publish (const HIID &id,int,int scope, int priority)
+int WPInterface::publish (const HIID &id,int flags,int scope, int priority)
 {
   Message::Ref msg( new Message(id,priority),DMI::ANON|DMI::WRITE );
-  return publish(msg,scope);
+  return publish(msg,flags,scope);
 }
 
 //##ModelId=3CBED9EF0197
-- 
2.43.0


From ab6258040455c687886248a18981f5aaec431b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 42/85] fix: Message: flags of a message without payload were
 undefined

---
 OCTOPUSSY/src/Message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/Message.h b/OCTOPUSSY/src/Message.h
index f739aa4..a931f64 100755
--- a/OCTOPUSSY/src/Message.h
+++ b/OCTOPUSSY/src/Message.h
@@ -320,7 +320,7 @@ class Message : public DMI::BObj
 
 //##ModelId=3C7B9D0A01FB
 inline Message::Message (const HIID &id1, int pri)
-   : priority_(pri),state_(0),hops_(0),id_(id1)
+   : flags_(0),priority_(pri),state_(0),hops_(0),id_(id1)
 {
 }
 
-- 
2.43.0


From e302c62d1ed6c17705d39fbf340a5115a00f49c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 43/85] fix: Subscriptions: a WP could change its subscriptions
 while another thread was matching them

---
 OCTOPUSSY/src/Subscriptions.cc | 6 ++++++
 OCTOPUSSY/src/Subscriptions.h  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/OCTOPUSSY/src/Subscriptions.cc b/OCTOPUSSY/src/Subscriptions.cc
index 9e6fd34..7b806c5 100755
--- a/OCTOPUSSY/src/Subscriptions.cc
+++ b/OCTOPUSSY/src/Subscriptions.cc
@@ -40,6 +40,7 @@ Subscriptions::Subscriptions()
 
 bool Subscriptions::add (const HIID& id, const MsgAddress &scope)
 {
+  Thread::Mutex::Lock lock(mutex);
   // check if it matches an existing subscription
   for( SSI iter = subs.begin(); iter != subs.end(); iter++ )
   {
@@ -66,6 +67,7 @@ bool Subscriptions::add (const HIID& id, const MsgAddress &scope)
 
 bool Subscriptions::remove (const HIID &id)
 {
+  Thread::Mutex::Lock lock(mutex);
   bool ret = false;
   for( SSI iter = subs.begin(); iter != subs.end(); )
   {
@@ -84,6 +86,7 @@ bool Subscriptions::remove (const HIID &id)
 
 void Subscriptions::clear ()
 {
+  Thread::Mutex::Lock lock(mutex);
   subs.clear();
   pksize = sizeof(size_t);
 }
@@ -98,6 +101,7 @@ bool Subscriptions::merge (const Subscriptions &other)
 
 bool Subscriptions::matches (const Message &msg) const
 {
+  Thread::Mutex::Lock lock(mutex);
   for( CSSI iter = subs.begin(); iter != subs.end(); iter++ )
     if( msg.id().matches(iter->mask) && msg.from().matches(iter->scope) )
       return true;
@@ -106,6 +110,7 @@ bool Subscriptions::matches (const Message &msg) const
 
 size_t Subscriptions::pack (void* block, size_t &nleft) const
 {
+  Thread::Mutex::Lock lock(mutex);
   size_t hdrsize = sizeof(size_t)*(1+2*subs.size());
   Assert(hdrsize <= pksize ); // make sure our accounting is right
   FailWhen(nleft<hdrsize,"block too small");
@@ -129,6 +134,7 @@ size_t Subscriptions::pack (void* block, size_t &nleft) const
 
 void Subscriptions::unpack (const void* block, size_t sz)
 {
+  Thread::Mutex::Lock lock(mutex);
   FailWhen(sz<sizeof(size_t),"corrupt block");
   subs.clear();
   pksize = sz;
diff --git a/OCTOPUSSY/src/Subscriptions.h b/OCTOPUSSY/src/Subscriptions.h
index 3c6c74e..79840ed 100755
--- a/OCTOPUSSY/src/Subscriptions.h
+++ b/OCTOPUSSY/src/Subscriptions.h
@@ -30,6 +30,7 @@
 #include <DMI/HIID.h>
 #include <OCTOPUSSY/MsgAddress.h>
 #include <OCTOPUSSY/Message.h>
+#include <TimBase/Thread.h>
 #include <list>
 
 namespace Octopussy
@@ -93,6 +94,8 @@ class Subscriptions
       // it is updated by add() and remove().
     //##ModelId=3DB936DB025A
       size_t pksize;
+      // a WP may (un)subscribe in one thread while others publish messages
+      Thread::Mutex mutex;
 };
 
 // Class Subscriptions 
@@ -107,6 +110,7 @@ inline int Subscriptions::size () const
 //##ModelId=3C99AC2F027F
 inline size_t Subscriptions::packSize () const
 {
+  Thread::Mutex::Lock lock(mutex);
   return pksize;
 }
 
-- 
2.43.0


From 7b06703ce6a99b8c133cd7b74fa4d1cbbbac6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 44/85] fix: OCTOPUSSY: status flags are shared between threads

---
 OCTOPUSSY/src/Dispatcher.cc  |  8 +++++---
 OCTOPUSSY/src/Dispatcher.h   | 11 ++++++-----
 OCTOPUSSY/src/WPInterface.cc | 10 ++++++----
 OCTOPUSSY/src/WPInterface.h  | 17 +++++++++++------
 4 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 3dbf533..4b1c63c 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -46,7 +46,7 @@ sigset_t Dispatcher::raisedSignals,Dispatcher::allSignals;
 //##ModelId=3DB9365A0179
 struct sigaction * Dispatcher::orig_sigaction[_NSIG];
 //##ModelId=3DB9365603B8
-bool Dispatcher::stop_polling = false;
+std::atomic<bool> Dispatcher::stop_polling(false);
 
 //##ModelId=3DB936610326
 int Dispatcher::signal_counter[Dispatcher::max_signals];
@@ -133,7 +133,8 @@ void Dispatcher::init ()
   memset(orig_sigaction,0,sizeof(orig_sigaction));
   sigemptyset(&raisedSignals);
   sigemptyset(&allSignals);
-  running = in_start = false;
+  running = false;
+  in_start = false;
   poll_depth = -1;
   repoll = false;
   dprintf(1)("created\n");
@@ -233,7 +234,8 @@ void Dispatcher::declareForwarder (WPInterface *wp)
 void Dispatcher::start ()
 {
   dprintf(2)("start: running=in_start=true\n");
-  running = in_start = true;
+  running = true;
+  in_start = true;
   in_pollLoop = false;
   stop_polling = false;
   tick = 0;
diff --git a/OCTOPUSSY/src/Dispatcher.h b/OCTOPUSSY/src/Dispatcher.h
index ec0a231..9f38b89 100755
--- a/OCTOPUSSY/src/Dispatcher.h
+++ b/OCTOPUSSY/src/Dispatcher.h
@@ -30,6 +30,7 @@
 #include <sys/time.h>
 #include <sys/types.h>
 #include <unistd.h>
+#include <atomic>
 #include <stack>
 #include <map>
 #include <TimBase/Thread.h>
@@ -320,16 +321,16 @@ class Dispatcher : public OctopussyDebugContext
     // Additional Protected Declarations
       // flag: dispatcher is running
     //##ModelId=3DB936560029
-      bool running;
+      std::atomic<bool> running;
       // flag: repoll required
     //##ModelId=3DB9365601EC
-      bool repoll;
+      std::atomic<bool> repoll;
       // flag: stop the poll loop
     //##ModelId=3DB9365603B8
-      static bool stop_polling;
+      static std::atomic<bool> stop_polling;
       // flag: we are inside the pollLoop() or start() method
     //##ModelId=3DB9365701B1
-      bool in_pollLoop,in_start;
+      std::atomic<bool> in_pollLoop,in_start;
       // This is the current poll depth (i.e., depth of nested polls)
       // when <0, means no poll() calls should be made.
     //##ModelId=3DB93658018A
@@ -465,7 +466,7 @@ class Dispatcher : public OctopussyDebugContext
       vector<string> commandLine;
 
       //##ModelId=3DB958F20028
-      ulong tick;
+      std::atomic<ulong> tick;
 
     // Data Members for Associations
 
diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index fc6816c..12837e5 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -469,10 +469,11 @@ int WPInterface::logLevel_ = 2;
 WPInterface::WPInterface (AtomicID wpc)
   : DebugContext(wpc.toString(),&OctopussyDebugContext::getDebugContext()),
     config(OctopussyConfig::global()),
-    address_(wpc),state_(0),running(false),autoCatch_(false),
+    address_(wpc),needRepoll_(false),state_(0),running(false),autoCatch_(false),
     dsp_(0),queue_(0),wpid_(wpc)
 {
-  full_lock = receive_lock = started = false;
+  full_lock = receive_lock = false;
+  started = false;
   enablePolling();
 #ifdef USE_THREADS
   num_worker_threads = num_initialized_workers = 0;
@@ -497,7 +498,8 @@ void WPInterface::attach (Dispatcher* pdsp)
 void WPInterface::do_init ()
 {
   setNeedRepoll(false);
-  full_lock = receive_lock = started = false;
+  full_lock = receive_lock = false;
+  started = false;
   running = true;
   if( autoCatch() )
   {
@@ -1281,7 +1283,7 @@ string WPInterface::sdebug ( int detail,const string &,const char *nm ) const
   }
   if( detail >= 1 || detail == -1 )   // normal detail
   {
-    Debug::appendf(out,"st:%d",state_);
+    Debug::appendf(out,"st:%d",state());
   }
   return out;
 }
diff --git a/OCTOPUSSY/src/WPInterface.h b/OCTOPUSSY/src/WPInterface.h
index a5d66d2..be731df 100755
--- a/OCTOPUSSY/src/WPInterface.h
+++ b/OCTOPUSSY/src/WPInterface.h
@@ -34,6 +34,7 @@
 #include <OCTOPUSSY/OctopussyDebugContext.h>
 #include <OCTOPUSSY/Message.h>
 
+#include <atomic>
 #include <list>
 #include <set>
 #include <queue>
@@ -416,7 +417,7 @@ class WPInterface : public OctopussyDebugContext,
       void publishSubscriptions ();
       
     //##ModelId=3DB936DC039C
-      bool full_lock,receive_lock;
+      std::atomic<bool> full_lock,receive_lock;
       
       
     //##ModelId=3DB936DE006B
@@ -512,13 +513,13 @@ class WPInterface : public OctopussyDebugContext,
       MsgAddress address_;
 
       //##ModelId=3C8F18B40315
-      bool needRepoll_;
+      std::atomic<bool> needRepoll_;
 
       //##ModelId=3C8F256E024B
-      int state_;
+      std::atomic<int> state_;
 
       //##ModelId=3CE0C01601F8
-      bool running;
+      std::atomic<bool> running;
 
       //##ModelId=3CBED3720012
       //##Documentation
@@ -543,10 +544,14 @@ class WPInterface : public OctopussyDebugContext,
     // Additional Implementation Declarations
     //##ModelId=3DB937270171
       bool raiseNeedRepoll (bool value)
-      { return needRepoll_ |= value; }
+      { 
+        if( value )
+          needRepoll_ = true;
+        return needRepoll_; 
+      }
       
     //##ModelId=3DB936E5027C
-      bool started;
+      std::atomic<bool> started;
       
     //##ModelId=3DB936E6012A
       WPID wpid_;
-- 
2.43.0


From eb6e04ad0debb1f689fd720e5c926cdec6d5b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 45/85] fix: Dispatcher: the event thread could miss a wakeup
 that arrived just before its select()

---
 OCTOPUSSY/src/Dispatcher.cc | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 4b1c63c..3e495e4 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -1075,12 +1075,18 @@ void * Dispatcher::start_eventThread (void *pdsp)
 //##ModelId=3DB9366B015E
 void * Dispatcher::eventThread ()
 {
-  // no signals are blocked
+  // our signals are only let through inside the pselect() calls below: were 
+  // they to be delivered between checkEvents() and the select, the wakeup would
+  // be lost
   try
   {
     dprintf(1)("Entering event thread\n");
-    // unblock all signals
-    Thread::signalMask(SIG_UNBLOCK,validSignals());
+    sigset_t sigmask;
+    Thread::signalMask(SIG_BLOCK,validSignals());
+    pthread_sigmask(SIG_BLOCK,0,&sigmask);
+    for( int sig = 1; sig < _NSIG; sig++ )
+      if( sigismember(validSignals(),sig) == 1 )
+        sigdelset(&sigmask,sig);
     // wait for startup to complete
     if( in_start )
     {
@@ -1101,7 +1107,8 @@ void * Dispatcher::eventThread ()
         stopPolling();
       // pause until next timeout, or until an fd is active
       Thread::Mutex::Lock lock(tomutex);
-      struct timeval tv,*ptv = &tv;
+      struct timeval tv;
+      struct timespec ts,*pts = &ts;
       if( next_to )
       {
         (next_to - Timestamp::now()).to_timeval(tv);
@@ -1111,20 +1118,22 @@ void * Dispatcher::eventThread ()
         // so that the select() call below only checks the fds and does not sleep
         if( tv.tv_sec < 0 || (!tv.tv_sec && tv.tv_usec<0) )
           tv.tv_sec = tv.tv_usec = 0;
+        ts.tv_sec = tv.tv_sec;
+        ts.tv_nsec = tv.tv_usec*1000;
       }
       else // no timeouts pending at all, so wait indefinitely on the fds
-        ptv = 0;
+        pts = 0;
       lock.relock(fds_watched_mutex);
       if( max_fd >= 0 ) // poll fds using select(2) 
       {
         fds_active = fds_watched;
         lock.release();
-        if( ptv )
-          { dprintf(5)("select(%d,%ld:%ld)\n",max_fd,ptv->tv_sec,ptv->tv_usec); }
+        if( pts )
+          { dprintf(5)("select(%d,%ld:%ld)\n",max_fd,(long)tv.tv_sec,(long)tv.tv_usec); }
         else
           { dprintf(5)("select(%d,null)\n",max_fd); }
         // NB: if timeouts change, should also deliver a signal
-        num_active_fds = select(max_fd,&fds_active.r,&fds_active.w,&fds_active.x,ptv);
+        num_active_fds = pselect(max_fd,&fds_active.r,&fds_active.w,&fds_active.x,pts,&sigmask);
         // we don't expect any errors except perhaps EINTR (interrupted by signal)
         dprintf(1)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
 //        dprintf(5)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
@@ -1134,11 +1143,11 @@ void * Dispatcher::eventThread ()
       else  // else just use select(2) to sleep until next timeout
       {
         lock.release();
-        if( ptv )
-          { dprintf(5)("select(0,%ld:%ld)\n",ptv->tv_sec,ptv->tv_usec); }
+        if( pts )
+          { dprintf(5)("select(0,%ld:%ld)\n",(long)tv.tv_sec,(long)tv.tv_usec); }
         else
           { dprintf(5)("select(0,null)\n"); }
-        int res = select(0,NULL,NULL,NULL,ptv);
+        int res = pselect(0,NULL,NULL,NULL,pts,&sigmask);
         dprintf(5)("select()=%d, errno=%d (%s), running=%d\n",res,res<0?errno:0,res<0?strerror(errno):"",(int)running);
       }
     }
-- 
2.43.0


From 5e41730a856b4666f81c6bc0899edbb23796973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 46/85] fix: Dispatcher: detach() cleared timeouts without
 holding their mutex

---
 OCTOPUSSY/src/Dispatcher.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 3e495e4..c136016 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -197,11 +197,13 @@ void Dispatcher::detach (const WPID &id, bool delay)
       "wpid '"+id.toString()+"' is not attached to this dispatcher");
   WPInterface *pwp = iter->second;
   // remove all events associated with this WP
+  Thread::Mutex::Lock tolock(tomutex);
   for( TOILI iter = timeouts.begin(); iter != timeouts.end(); )
     if( iter->pwp == pwp )
       timeouts.erase(iter++);
     else
       iter++;
+  tolock.release();
   rebuildInputs(pwp);
   rebuildSignals(pwp);
   // if asked to delay, then move WP ref to delay stack, it will be
-- 
2.43.0


From f001dacb62fef10b2913fbb4026495017369bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 47/85] fix: CountedRefTarget: the reference count is read
 while other threads change it

---
 DMI/src/CountedRefTarget.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DMI/src/CountedRefTarget.h b/DMI/src/CountedRefTarget.h
index dc371a0..3d21a79 100644
--- a/DMI/src/CountedRefTarget.h
+++ b/DMI/src/CountedRefTarget.h
@@ -29,6 +29,7 @@
 #include <TimBase/CheckConfig.h>
 
 #include <TimBase/lofar_iostream.h>
+#include <atomic>
 
 CHECK_CONFIG_THREADS(DMI);
 
@@ -173,7 +174,7 @@ class CountedRefTarget
       //## First ref in list of refs to this target
       mutable CountedRefBase *owner_ref_;
 #else
-      mutable int ref_count_;
+      mutable std::atomic<int> ref_count_; // read without holding the mutex
 #endif
 
     // Additional Implementation Declarations
-- 
2.43.0


From f6f4e40414ff936877f309d437980f7f6257e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:11 +0000
Subject: [PATCH 48/85] fix: WPInterface: an event's id and flags were read
 after its message had been released

---
 OCTOPUSSY/src/Message.cc     | 4 ++--
 OCTOPUSSY/src/Message.h      | 3 ++-
 OCTOPUSSY/src/WPInterface.cc | 6 ++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/OCTOPUSSY/src/Message.cc b/OCTOPUSSY/src/Message.cc
index b318469..92a68b3 100755
--- a/OCTOPUSSY/src/Message.cc
+++ b/OCTOPUSSY/src/Message.cc
@@ -157,7 +157,7 @@ void Message::cloneOther (const Message &other,int flags, int depth)
   priority_ = other.priority_;
   from_ = other.from_;
   to_ = other.to_;
-  state_ = other.state_;
+  state_ = other.state();
   hops_ = other.hops_;
   //  timestamp_ = other.timestamp_;
 #ifdef ENABLE_LATENCY_STATS
@@ -300,7 +300,7 @@ string Message::sdebug ( int detail,const string &prefix,const char *name ) cons
   if( detail >= 1 || detail == -1 )   // normal detail
   {
     Debug::appendf(out,"%s->%s p:%d s:%x",
-        from_.toString().c_str(),to_.toString().c_str(),priority_,state_);
+        from_.toString().c_str(),to_.toString().c_str(),priority_,state());
     if( hops_ )
       Debug::appendf(out,"hc:%d",(int)hops_);
     if( detail == 1 )
diff --git a/OCTOPUSSY/src/Message.h b/OCTOPUSSY/src/Message.h
index a931f64..caf3e4b 100755
--- a/OCTOPUSSY/src/Message.h
+++ b/OCTOPUSSY/src/Message.h
@@ -35,6 +35,7 @@
 #include <OCTOPUSSY/TID-OCTOPUSSY.h>
 #include <OCTOPUSSY/AID-OCTOPUSSY.h>
 #include <OCTOPUSSY/LatencyVector.h>
+#include <atomic>
 
 // if not in debug mode, disable latency stats
 #if !LOFAR_DEBUG
@@ -279,7 +280,7 @@ class Message : public DMI::BObj
       int priority_;
 
       //##ModelId=3C7E33F40330
-      int state_;
+      std::atomic<int> state_; // of events, updated by the event thread
 
       //##ModelId=3CC952D7039B
       short hops_;
diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 12837e5..b47aeae 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -182,7 +182,9 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
     lock.release();
 
     const Message &msg = qe.mref.deref();
-    const HIID &id = msg.id();
+    // make copies: dereferencing the ref for writing may release msg
+    const HIID id = msg.id();
+    const int state = msg.state();
     FailWhen( id.empty(),"null message ID" );
     dprintf1(3)("%s: receiving %s\n",sdebug(1).c_str(),msg.debug(1));
 
@@ -210,7 +212,7 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
       else if( id[1] == AidInput ) // deliver input message
       {
         FailWhen( id.size() != 3,"malformed "+id.toString('.')+" message" );
-        int fd=id[2],flags=msg.state();
+        int fd=id[2],flags=state;
         if( flags )  // no flags? Means the input has been already removed. Ignore
         {
           res = input(fd,flags);
-- 
2.43.0


From 4fe6e3d8bb265ddf3c553d9a9ef026b6bdede508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 49/85] fix: Dispatcher: the event thread used max_fd after
 releasing its mutex

---
 OCTOPUSSY/src/Dispatcher.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index c136016..4d0264c 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -1129,13 +1129,14 @@ void * Dispatcher::eventThread ()
       if( max_fd >= 0 ) // poll fds using select(2) 
       {
         fds_active = fds_watched;
+        const int nfds = max_fd;
         lock.release();
         if( pts )
-          { dprintf(5)("select(%d,%ld:%ld)\n",max_fd,(long)tv.tv_sec,(long)tv.tv_usec); }
+          { dprintf(5)("select(%d,%ld:%ld)\n",nfds,(long)tv.tv_sec,(long)tv.tv_usec); }
         else
-          { dprintf(5)("select(%d,null)\n",max_fd); }
+          { dprintf(5)("select(%d,null)\n",nfds); }
         // NB: if timeouts change, should also deliver a signal
-        num_active_fds = pselect(max_fd,&fds_active.r,&fds_active.w,&fds_active.x,pts,&sigmask);
+        num_active_fds = pselect(nfds,&fds_active.r,&fds_active.w,&fds_active.x,pts,&sigmask);
         // we don't expect any errors except perhaps EINTR (interrupted by signal)
         dprintf(1)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
 //        dprintf(5)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
-- 
2.43.0


From 6079bf6d81d57c8ed54142a6a5c0b42ffffa9e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 50/85] fix: TDL: nodes that were still in use were deleted as
 orphans

---
 PyApps/src/TDL/TDLimpl.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 674f97a..afb7e84 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -960,10 +960,16 @@ class _NodeRepository (dict):
     if not ( node.quals or node.kwquals ):
       try: delattr(node.scope,node.name.split('::')[-1]);
       except AttributeError: pass;
-    # get refcount of this node. True orphans will only have 2:
-    # ourselves, and the local 'node' symbol.
-    refcount = len(gc.get_referrers(node));
-    if refcount > 2:
+    # get refcount of this node. True orphans will have none besides
+    # ourselves, and the local 'node' symbol (whether the latter's frame shows up as 
+    # a referrer depends on the Python version).
+    frame = sys._getframe();
+    refcount = 0;
+    for r in gc.get_referrers(node):
+      if r is not self and r is not frame:
+        refcount += 1;
+    r = frame = None;
+    if refcount:
       _dprint(3,"node",name,"has",refcount,"refs to it, skipping");
       if _dbg.verbose > 4:
         for r in gc.get_referrers(node):
-- 
2.43.0


From 9b72a282333c36a70165283bf2d21fb5b7c8bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 51/85] fix: TDL: deriving a name from a qualified node added
 the qualifiers to the node itself

---
 PyApps/src/TDL/TDLimpl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index afb7e84..242a89e 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -413,11 +413,11 @@ def _mergeQualifiers (qual0,kwqual0,qual,kwqual,uniq=False):
   for kw,val in kwqual.items():
     val0 = kwqual0.get(kw,[]);
     if not isinstance(val0,list):
-      kwqual0[kw] = val0 = [val0];
+      val0 = [val0];
     if not isinstance(val,list):
       val = [val];
-    val0.extend([q for q in val if q not in val0]);
-    kwqual0[kw] = val0;
+    # make a new list: val0 may belong to the node that the qualifiers come from
+    kwqual0[kw] = val0 + [q for q in val if q not in val0];
 
 def NodeType ():
   return _NodeStub;
-- 
2.43.0


From d6643dd311c12b7708ca9fea25cf7c8e71d41794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 52/85] fix: TDL: orphans in scopes with qualifiers were kept

---
 PyApps/src/TDL/TDLimpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 242a89e..7325ef6 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -958,7 +958,7 @@ class _NodeRepository (dict):
       return True;
     # unqualified name: delete from scope dictionary too
     if not ( node.quals or node.kwquals ):
-      try: delattr(node.scope,node.name.split('::')[-1]);
+      try: delattr(node.scope,node.basename);
       except AttributeError: pass;
     # get refcount of this node. True orphans will have none besides
     # ourselves, and the local 'node' symbol (whether the latter's frame shows up as 
-- 
2.43.0


From d7475e7d2b7730903fe62dfb25543b748740c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:30 +0000
Subject: [PATCH 53/85] fix: TDL: auto-generated names clashed between scopes
 with the same name and qualifiers

---
 PyApps/src/TDL/TDLimpl.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 7325ef6..265f4d1 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -1447,11 +1447,14 @@ class NodeScope (object):
 
   def MakeUniqueName (self,name):
     num = self._uniqname_counters.get(name,0);
-    self._uniqname_counters[name] = num+1;
-    if num:
-      return "(%s)%d" % (name,num);
-    else:
-      return "(%s)" % (name,);
+    while True:
+      uniqname = "(%s)%d" % (name,num) if num else "(%s)" % (name,);
+      num += 1;
+      # another scope object may share our name and qualifiers
+      if self.QualifyScopedName(uniqname) not in self._repository:
+        break;
+    self._uniqname_counters[name] = num;
+    return uniqname;
 
   def MakeConstant (self,value):
     """make or reuse a Meq.Constant node with the given value""";
-- 
2.43.0


From 43e82331ed12ea9cd757cc5a1210c65ea7abb882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 54/85] fix: TDL: report where an undefined step child is used

---
 PyApps/src/TDL/TDLimpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 265f4d1..2d67db5 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -1240,7 +1240,7 @@ class _NodeRepository (dict):
             orphans.append(name);
           else:
             self._roots[name] = node;
-        for (i,ch) in node.children:
+        for (i,ch) in node.children + node.stepchildren:
           if ch is not None and not ch.initialized():
             self.add_error(
               ch._name_stack.make_error(UninitializedNode,
-- 
2.43.0


From 120d718e6b62fbd13d3941d1cf788a4d997630f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 55/85] fix: TDL: a node that is its own ancestor crashed the
 server

---
 PyApps/src/TDL/TDLimpl.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 2d67db5..650af62 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -1173,6 +1173,37 @@ class _NodeRepository (dict):
     return [ node for name,node in self.items() \
                   if match(name) and node._initrec is not None ];
 
+  def _checkForCycles (self):
+    """reports an error for every node that closes a cycle""";
+    done = set();
+    for top in self.values():
+      # depth-first search without recursion (trees can be deep). The path holds
+      # the nodes we're inside of, along with the children yet to be visited
+      path = [];
+      inside = set();
+      next_node = top;
+      while path or next_node is not None:
+        if next_node is not None:
+          if next_node.name not in done and next_node.initialized():
+            inside.add(next_node.name);
+            path.append((next_node,iter([ ch for i,ch in next_node.children + next_node.stepchildren ])));
+          next_node = None;
+        else:
+          node,children = path[-1];
+          for ch in children:
+            if ch is None:
+              continue;
+            if ch.name in inside:
+              self.add_error(node._name_stack.make_error(ChildError,
+                "node '%s' is a child of '%s', but also its ancestor"%(ch.name,node.name)));
+            else:
+              next_node = ch;
+              break;
+          else:
+            path.pop();
+            inside.remove(node.name);
+            done.add(node.name);
+
   def resolve (self,cleanup_orphans):
     """resolves contents of repository.
     cleanup_orphans: If True, then all orphan nodes are deleted.
@@ -1260,6 +1291,8 @@ class _NodeRepository (dict):
         _dprint(3,'checked node',node.name,'nodeindex',node.nodeindex);
         ch = None; # relinquish ref to node, otherwise orphan collection is confused
     node = None;  # relinquish ref to node, otherwise orphan collection is confused
+    # a node that is its own ancestor can not be executed
+    self._checkForCycles();
     # now check for accumulated errors
     if len(self._errors):
       _dprint(1,len(self._errors),"errors reported");
-- 
2.43.0


From 0b5d730c6961a75fb1e5358a4ec1edf735e1b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 56/85] fix: TDL: anonymous nodes can have missing children

---
 PyApps/src/TDL/TDLimpl.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 650af62..87ad359 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -344,13 +344,14 @@ class _NodeDef (object):
     self.children = self.children.resolve(scope,classname=self._class);
     classname = self._class.lower();
     # create name as Class(child1,child2,...):qualifiers
-    if self.children:
+    children = [ child for (ich,child) in self.children if child is not None ];
+    if children:
       # use the scope of the first child. If scopes differ, we'll append them as subscopes
-      scope = self.children[0][1].scope;
+      scope = children[0].scope;
       # generate qualifier list
       quals = [];
       kwquals = {};
-      for (ich,child) in self.children:
+      for child in children:
         child_quals = list(child.quals);
         # if child (1+) comes from a different scope, then prepend its name and qualifiers
         if child.scope is not scope:
@@ -359,7 +360,7 @@ class _NodeDef (object):
             child_quals.insert(0,child.scope._name);
         _mergeQualifiers(quals,kwquals,
            child_quals,child.kwquals,uniq=True);
-      basename = ','.join([x[1].basename for x in self.children]);
+      basename = ','.join([getattr(x[1],'basename','None') for x in self.children]);
       basename = "%s(%s)" % (classname,basename);
       _dprint(4,"creating auto-name",basename,quals,kwquals);
       return scope[basename](*quals,**kwquals) << self;
-- 
2.43.0


From 663022c1a7c07f9bf1224d6344c3e9bf112dccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:09 +0000
Subject: [PATCH 57/85] fix: TDL: searches failed on trees with missing
 children

---
 PyApps/src/TDL/TDLimpl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 87ad359..89e6100 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -1153,7 +1153,8 @@ class _NodeRepository (dict):
               result.append(node);
             if node.children:
               for label,child in node.children:
-                recursive_find(result,child);
+                if child is not None:
+                  recursive_find(result,child);
         return result;
       # now do the search
       found = [];
-- 
2.43.0


From 97e31fcf539b6642009aa4e7c32a4c5b748df7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 58/85] fix: TDL: nodes bound to the same definition shared
 their lists of children and their init-record

---
 PyApps/src/TDL/TDLimpl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyApps/src/TDL/TDLimpl.py b/PyApps/src/TDL/TDLimpl.py
index 89e6100..8d04f47 100644
--- a/PyApps/src/TDL/TDLimpl.py
+++ b/PyApps/src/TDL/TDLimpl.py
@@ -584,8 +584,9 @@ class _NodeStub (object):
       else:  # else node not initialized
         self.classname = classname;
         _dprint(4,self.name,'children are',children);
-        self.children = children;
-        self.stepchildren = stepchildren;
+        # (copies, since the same definition may be bound to other nodes)
+        self.children = copy.copy(children);
+        self.stepchildren = copy.copy(stepchildren);
         # add ourselves to parent list
         for (lbl,child) in self.children + self.stepchildren:
           if child is not None:
@@ -599,7 +600,7 @@ class _NodeStub (object):
         # if creating a VisDataMux explicitly, mark that we have one
         elif self.classname == 'MeqVisDataMux':
           self.scope._repository._have_vdm = self;
-        self._initrec = initrec;
+        self._initrec = initrec.copy();
         # get processor keyword, add to list of processor assignments
         proc = self._proc = initrec.get('proc',None);
         if proc is not None:
-- 
2.43.0


From 3271d5f37a3e51fa0037017ce8fb52b55aaef0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:07 +0000
Subject: [PATCH 59/85] fix: comparing two empty shapes dereferenced null
 pointers

---
 TimBase/src/Lorrays-Blitz.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TimBase/src/Lorrays-Blitz.h b/TimBase/src/Lorrays-Blitz.h
index 3d2431c..51394e2 100644
--- a/TimBase/src/Lorrays-Blitz.h
+++ b/TimBase/src/Lorrays-Blitz.h
@@ -289,8 +289,8 @@ class VariVector : public std::vector<int>
       // compares two varivectors
       bool operator == (const VariVector &other) const
       {
-        return size() == other.size() &&
-               !memcmp(&(front()),&(other.front()),size()*sizeof(int));
+        return size() == other.size() && ( empty() ||
+               !memcmp(&(front()),&(other.front()),size()*sizeof(int)) );
       }
       bool operator != (const VariVector &other) const
       {
-- 
2.43.0


From abfc0a7490d8a268952f0b5d56bc6037d75e9206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 60/85] fix: VisDataMux: looking for a valid row ran past the
 end of a tile

---
 MeqServer/src/VisDataMux.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index e4a51e4..664730e 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -583,9 +583,8 @@ void Meq::VisDataMux::fillCells (Cells &cells,LoRange &range,const VisCube::VTil
 {
   // find first valid row, error if none
   int i0,i1;
-  for( i0=0; tile.time(i0) == 0; i0++ )
-    if( i0 >= tile.nrow() )
-    { Throw("tile does not contain any valid rows"); }
+  for( i0=0; i0 < tile.nrow() && tile.time(i0) == 0; i0++ );
+  FailWhen(i0 >= tile.nrow(),"tile does not contain any valid rows");
   cdebug1(5)<<"valid row range: "<<i0<<":"<<i1<<endl;
   // find last valid row (error condition above ensures that at least one exists)
   for( i1=tile.nrow()-1; tile.time(i1)==0 ; i1-- );
-- 
2.43.0


From 4f2806d58cc63bed9e2d776775b835fb7c6257e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 61/85] fix: VisDataMux: running on a dataset with fewer
 stations lost sinks and spigots; tiles could index one past the handlers

---
 MeqServer/src/VisDataMux.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index 664730e..1a18534 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -270,10 +270,13 @@ int Meq::VisDataMux::deliverHeader (const DMI::Record &header)
   RqId::setSubId(next_rqid_,symdeps().getMask(FDomain),0);
   current_seqnr_ = -1;
   int maxdid = formDataId(nstations-1,nstations-1) + 1;
-  have_tile_.assign(maxdid,false);
   // forest().resetForNewDataSet();
-  handlers_.resize(maxdid);
-  child_indices_.resize(maxdid);
+  // make sure there's room for all the data ids. Do not lose any sinks or spigots 
+  // whose data ids happen to be absent in this particular dataset
+  int numdid = std::max(maxdid,int(std::max(handlers_.size(),child_indices_.size())));
+  handlers_.resize(numdid);
+  child_indices_.resize(numdid);
+  have_tile_.assign(numdid,false);
   // get sizes and steppings
   total_timeslots_ = header[FNumTimeslots].as<int>();
   total_channels_ = header[FNumChannels].as<int>();
@@ -348,7 +351,7 @@ int Meq::VisDataMux::deliverTile (VisCube::VTile::Ref &tileref)
   num_chunks_++;
   // get handler for this tile
   int did = formDataId(tileref->antenna1(),tileref->antenna2());
-  if( did > int(handlers_.size()) )
+  if( did >= int(handlers_.size()) )
   {
     cdebug(4)<<"no handlers for did "<<did<<", skipping tile "<<tileref->sdebug(DebugLevel-2)<<endl;
     return 0;
-- 
2.43.0


From 98468367d544b95f7952470c4df44405cacac556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 62/85] fix: Spigot: with a null flag mask only the first
 timeslot got row flags

---
 MeqServer/src/Spigot.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MeqServer/src/Spigot.cc b/MeqServer/src/Spigot.cc
index 708618b..377694e 100644
--- a/MeqServer/src/Spigot.cc
+++ b/MeqServer/src/Spigot.cc
@@ -393,8 +393,9 @@ int Spigot::deliverTile (const Request &req,VisCube::VTile::Ref &tileref,const L
             // shape of flag array is 1D (time only)
             flagref <<= new Vells(Axis::freqTimeMatrix(1,nrows),VellsFlagType(),true);
             pfl = &( flagref().getArray<VellsFlagType,2>() );
-            (*pfl)(0,LoRange::all()) |= (rowflag&row_flag_mask_) |
-                                        (rowflag == VisVocabulary::FlagMissing);
+            for( int j=0; j<nrows; j++ )
+              (*pfl)(j,0) = (rowflag(j)&row_flag_mask_) |
+                            (rowflag(j)==VisVocabulary::FlagMissing);
           }
           // only attach data flags if they're non-0
           if( pfl && blitz::any(*pfl) )
-- 
2.43.0


From e4b935f9997d7191bd09617092eef4439e37cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 63/85] fix: Sink: writing to a tile column of floats or
 integers overran it

---
 MeqServer/src/Sink.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MeqServer/src/Sink.cc b/MeqServer/src/Sink.cc
index 8a19a1c..38b4b60 100644
--- a/MeqServer/src/Sink.cc
+++ b/MeqServer/src/Sink.cc
@@ -171,6 +171,8 @@ int Sink::getResult (Result::Ref &resref,
         }
         coldata  = ptile->wcolumn(output_col);
         coltype  = pformat->type(output_col);
+        FailWhen(coltype!=Tpdouble && coltype!=Tpfcomplex,
+                 "can't write to output column "+output_colname+" of type "+coltype.toString());
         colshape = pformat->shape(output_col);
         colshape.push_back(ptile->nrow()); // add third dimension to column shape
         FailWhen(colshape.size()!=3 && colshape.size()!=2,"output column must have 2 or 3 dimensions");
-- 
2.43.0


From 7b47280b80e17a3d57a7cbc3c324d68398159726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 64/85] fix: MS output: rows stayed mapped to tiles that had
 been flushed already

---
 AppAgent/AppUtils/src/MSSeqOutputChannel.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/AppAgent/AppUtils/src/MSSeqOutputChannel.cc b/AppAgent/AppUtils/src/MSSeqOutputChannel.cc
index 01e5ad2..ef54b0d 100644
--- a/AppAgent/AppUtils/src/MSSeqOutputChannel.cc
+++ b/AppAgent/AppUtils/src/MSSeqOutputChannel.cc
@@ -189,10 +189,13 @@ void MSSeqOutputChannel::flushOutputTiles ()
           }
         }
       }
+      // row has been written
+      row_to_tile_[msrow].tile_num = -1;
     }
   }
   catch( std::exception &exc )
   {
+    memset(&(row_to_tile_[0]),0xFF,ms_num_rows_*sizeof(row_to_tile_[0]));
     min_ms_row_ = ms_num_rows_;
     max_ms_row_ = 0;
     tiles_.resize(0);
-- 
2.43.0


From 550f1d68a96f69469614c6ce293083647731b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 65/85] fix: MS output: flags in the tile were modified by
 writing them

---
 AppAgent/AppUtils/src/MSSeqOutputChannel.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/AppAgent/AppUtils/src/MSSeqOutputChannel.cc b/AppAgent/AppUtils/src/MSSeqOutputChannel.cc
index ef54b0d..03a7ca9 100644
--- a/AppAgent/AppUtils/src/MSSeqOutputChannel.cc
+++ b/AppAgent/AppUtils/src/MSSeqOutputChannel.cc
@@ -141,8 +141,9 @@ void MSSeqOutputChannel::flushOutputTiles ()
             }
             if( tile.defined(VTile::FLAGS) && tile_flagmask_ )
             {
-              LoMat_int int_flags = tile.flags()(LoRange::all(),LoRange::all(),tm.tile_row);
-              int_flags = where(int_flags&tile_flagmask_,tile_bitflag_,0);
+              LoMat_int tile_flags = tile.flags()(LoRange::all(),LoRange::all(),tm.tile_row);
+              LoMat_int int_flags(tile_flags.shape());
+              int_flags = where(tile_flags&tile_flagmask_,tile_bitflag_,0);
               if( flip_freq_ )
                 int_flags.reverseSelf(blitz::secondDim);
               if( has_abitflags )
-- 
2.43.0


From 01a480b761495f69cd1a623a9f1a08f9742fb793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 66/85] fix: VTile: a column made writable through the base
 class left the tile's arrays on the old data, which is freed

---
 VisCube/src/ColumnarTableTile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VisCube/src/ColumnarTableTile.h b/VisCube/src/ColumnarTableTile.h
index 6a5cb5f..c741907 100644
--- a/VisCube/src/ColumnarTableTile.h
+++ b/VisCube/src/ColumnarTableTile.h
@@ -89,7 +89,7 @@ class ColumnarTableTile : public DMI::BObj  //## Inherits: <unnamed>%3D919C2B03D
       // makes data block writable by ensuring COW and recomputing offsets
       // if needed; returns true if this was done, or false if nothing
       // was changed (i.e. already writable)
-      bool makeWritable ()
+      virtual bool makeWritable ()
       { 
         if( !datablock.valid() || datablock.isDirectlyWritable() )
           return false;
-- 
2.43.0


From 69c0ed969abeff3dc63dcf9bcdea5947dea11f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 67/85] fix: MS output: bitflags could not be written to
 undefined cells of part of the channels; null flags were not written

---
 AppAgent/AppUtils/src/MSOutputChannel.cc    | 14 +++++++++++++-
 AppAgent/AppUtils/src/MSOutputChannel.h     |  3 +++
 AppAgent/AppUtils/src/MSSeqOutputChannel.cc |  6 +++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/AppAgent/AppUtils/src/MSOutputChannel.cc b/AppAgent/AppUtils/src/MSOutputChannel.cc
index 01830f7..3ab5bf6 100644
--- a/AppAgent/AppUtils/src/MSOutputChannel.cc
+++ b/AppAgent/AppUtils/src/MSOutputChannel.cc
@@ -309,6 +309,14 @@ void MSOutputChannel::putColumn (Column &col,int irow,const LoMat_fcomplex &data
   col.col.putSlice(irow,column_slicer_,aips_data);
 }
 
+void MSOutputChannel::putBitflags (int irow,const Matrix<Int> &bitflags)
+{
+  // initialize cell if needed, since only the selected channels are written below
+  if( !bitflagCol_.isDefined(irow) )
+    bitflagCol_.put(irow,null_bitflag_cell_);
+  bitflagCol_.putSlice(irow,column_slicer_,bitflags);
+}
+
 //##ModelId=3E28316B012D
 void MSOutputChannel::doPutTile (const VTile &tile)
 {
@@ -349,6 +357,10 @@ void MSOutputChannel::doPutTile (const VTile &tile)
         {
           cdebug(1)<<"Failed to read BITFLAG/BITFLAG_ROW, assuming null bitflags\n";
           cdebug(1)<<"Error was: "<<exc.what()<<endl;
+          const LoShape shape(iter.flags().shape());
+          abitflags.resize(shape[0],shape[1]);
+          abitflags = 0;
+          has_abitflags = true;
         }
         // if writing bitflags, apply masks and write out
         if( write_bitflag_ )
@@ -380,7 +392,7 @@ void MSOutputChannel::doPutTile (const VTile &tile)
               has_abitflags = true;
             }
           }
-          bitflagCol_.putSlice(irow,column_slicer_,abitflags);
+          putBitflags(irow,abitflags);
         }
         // if writing legacy flags, apply masks and write out
         if( write_legacy_flags_ && has_abitflags )
diff --git a/AppAgent/AppUtils/src/MSOutputChannel.h b/AppAgent/AppUtils/src/MSOutputChannel.h
index 12bcf2d..12ca81a 100644
--- a/AppAgent/AppUtils/src/MSOutputChannel.h
+++ b/AppAgent/AppUtils/src/MSOutputChannel.h
@@ -139,6 +139,9 @@ class MSOutputChannel : public FileChannel
 
     //##ModelId=3F5F436303AB
     void putColumn (Column &col,int irow,const LoMat_fcomplex &data);
+    
+    // writes bitflags into one row of the BITFLAG column, initializing the cell as needed
+    void putBitflags (int irow,const casacore::Matrix<casacore::Int> &bitflags);
 
     //##ModelId=3E2D6130030C
     string msname_;
diff --git a/AppAgent/AppUtils/src/MSSeqOutputChannel.cc b/AppAgent/AppUtils/src/MSSeqOutputChannel.cc
index 03a7ca9..9cbf9f0 100644
--- a/AppAgent/AppUtils/src/MSSeqOutputChannel.cc
+++ b/AppAgent/AppUtils/src/MSSeqOutputChannel.cc
@@ -128,6 +128,10 @@ void MSSeqOutputChannel::flushOutputTiles ()
           {
             cdebug(1)<<"Failed to read BITFLAG/BITFLAG_ROW, assuming null bitflags\n";
             cdebug(1)<<"Error was: "<<exc.what()<<endl;
+          const LoShape shape(tile.flags()(LoRange::all(),LoRange::all(),tm.tile_row).shape());
+          abitflags.resize(shape[0],shape[1]);
+          abitflags = 0;
+          has_abitflags = true;
           }
           // if writing bitflags, apply masks and write back
           if( write_bitflag_ )
@@ -160,7 +164,7 @@ void MSSeqOutputChannel::flushOutputTiles ()
                 has_abitflags = true;
               }
             }
-            bitflagCol_.putSlice(msrow,column_slicer_,abitflags);
+            putBitflags(msrow,abitflags);
           }
           // if writing legacy flags, apply legacy flagmasks and write
           if( write_legacy_flags_ && has_abitflags )
-- 
2.43.0


From b400f05621a2cc0bbe9990480dd254d730834d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 68/85] fix: MS input: default exposure of missing rows was
 that of the first timeslot in the tile

---
 AppAgent/AppUtils/src/MSInputChannel.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/AppAgent/AppUtils/src/MSInputChannel.cc b/AppAgent/AppUtils/src/MSInputChannel.cc
index 46ccc6e..eb9f89a 100644
--- a/AppAgent/AppUtils/src/MSInputChannel.cc
+++ b/AppAgent/AppUtils/src/MSInputChannel.cc
@@ -720,7 +720,8 @@ int MSInputChannel::refillStream ()
             // by the actual exposure time just below, but if some rows of a tile are missing, it's important
             // to have a default interval set. A similar procedure will be followed for the time column
             // below
-            ptile->winterval()(ALL) = exposure_times_[current_timeslot_];
+            for( int k=0; k<current_tilesize; k++ )
+              ptile->winterval()(k) = exposure_times_[current_timeslot_-ntimes+k];
           }
           ptile->wtimeslot()(ntimes) = current_timeslot_*time_incr_;
           ptile->winterval()(ntimes) = intCol(i);
-- 
2.43.0


From 475b9ab57a5da3d0ec48a34efb9083bb03a755fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 69/85] fix: MS input: all bitflags of a timeslot were ignored
 if those of one row were undefined

---
 AppAgent/AppUtils/src/MSInputChannel.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/AppAgent/AppUtils/src/MSInputChannel.cc b/AppAgent/AppUtils/src/MSInputChannel.cc
index eb9f89a..cf576d4 100644
--- a/AppAgent/AppUtils/src/MSInputChannel.cc
+++ b/AppAgent/AppUtils/src/MSInputChannel.cc
@@ -596,7 +596,23 @@ int MSInputChannel::refillStream ()
         {
           try
           {
-            Cube<Int> bitflagcube1 = ROArrayColumn<Int>(table,"BITFLAG").getColumn();
+            ROArrayColumn<Int> bitflagCol(table,"BITFLAG");
+            // cells of a variable-shape column may be undefined: these have no bitflags
+            int ndefined = 0;
+            for( int i=0; i<nrows; i++ )
+              if( bitflagCol.isDefined(i) )
+                ndefined++;
+            Cube<Int> bitflagcube1;
+            if( ndefined == nrows )
+              bitflagcube1.reference(bitflagCol.getColumn());
+            else
+            {
+              bitflagcube1.resize(datacube1.shape());
+              bitflagcube1 = 0;
+              for( int i=0; i<nrows; i++ )
+                if( bitflagCol.isDefined(i) )
+                  bitflagcube1.xyPlane(i) = bitflagCol(i);
+            }
             Vector<Int> bitflagvec1 = ROScalarColumn<Int>(table,"BITFLAG_ROW").getColumn();
             B2A::copyArray(bitflagcube,bitflagcube1);
             bitflagcube &= flagmask_;
-- 
2.43.0


From e91e281933bd4fc74c66fa9224d10f18eb2c2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 70/85] fix: MS input: tiling disagreed with the data read when
 a time increment is set, table of tile sizes overran

---
 AppAgent/AppUtils/src/MSInputChannel.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/AppAgent/AppUtils/src/MSInputChannel.cc b/AppAgent/AppUtils/src/MSInputChannel.cc
index cf576d4..64e1ab9 100644
--- a/AppAgent/AppUtils/src/MSInputChannel.cc
+++ b/AppAgent/AppUtils/src/MSInputChannel.cc
@@ -311,24 +311,26 @@ void MSInputChannel::openMS (DMI::Record &header,const DMI::Record &select)
   // timestamp of current timeslot
   Double curtime = 0;
   // number of timeslots per each tile
-  tile_sizes_.resize(nrows);     // make big enough, will resize back later
+  tile_sizes_.resize(nrows+1);   // make big enough, will resize back later
   tile_sizes_[0] = 0;            // first timeslot in first tile
   // exposure per each timeslot
   exposure_times_.resize(nrows);  // will resize back later
   // starting time of each tile
-  std::vector<double> start_times(nrows);
+  std::vector<double> start_times(nrows+1);
   // now loop over all times
-  int cur_incr_ = 0;
+  // the first timeslot in every group of time_incr_ is the one that is read
+  int cur_incr = -1;
+  Double prevtime = 0;
   for( int i=0; i<nrows; i++ )
   {
     Double tm = times(i);
-    if( i && tm == curtime ) // skip if in same timeslot
+    if( i && tm == prevtime ) // skip if in same timeslot
       continue;
+    prevtime = tm;
     // skip over specified number of timeslots
-    cur_incr_++;
-    if( cur_incr_ < time_incr_ )
+    cur_incr = (cur_incr+1) % time_incr_;
+    if( cur_incr )
       continue;
-    cur_incr_ = 0;
     // at this point we have a new timeslot
     exposure_times_[current_ts] = exposures(i);
     current_ts++;
-- 
2.43.0


From 1a01a05d9bef8a96477c1ac8401787467076ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 71/85] fix: MS input: selection was not sorted by time before
 working out the tiling

---
 AppAgent/AppUtils/src/MSInputChannel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AppAgent/AppUtils/src/MSInputChannel.cc b/AppAgent/AppUtils/src/MSInputChannel.cc
index 64e1ab9..3d64735 100644
--- a/AppAgent/AppUtils/src/MSInputChannel.cc
+++ b/AppAgent/AppUtils/src/MSInputChannel.cc
@@ -224,7 +224,7 @@ void MSInputChannel::openMS (DMI::Record &header,const DMI::Record &select)
     expr = expr && ms_.col("ANTENNA1") != ms_.col("ANTENNA2");
   selms_ = ms_(expr);
   // sort by time
-  selms_.sort("TIME");
+  selms_ = selms_.sort("TIME");
 
   vdsid_ = VDSID(obsid_++,0,0);
   header[FVDSID] = static_cast<HIID&>(vdsid_);
-- 
2.43.0


From ae578fd62656bca879c6e883e894fbacfb323e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 72/85] fix: MS input: stepped past the end of the dataset with
 a time increment

---
 AppAgent/AppUtils/src/MSInputChannel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AppAgent/AppUtils/src/MSInputChannel.cc b/AppAgent/AppUtils/src/MSInputChannel.cc
index 3d64735..eb40e9e 100644
--- a/AppAgent/AppUtils/src/MSInputChannel.cc
+++ b/AppAgent/AppUtils/src/MSInputChannel.cc
@@ -768,7 +768,7 @@ int MSInputChannel::refillStream ()
         }
         // increment current timeslot number
         current_timeslot_++;
-        for( int k=0; k<time_incr_; k++ )
+        for( int k=0; k<time_incr_ && !tableiter_.pastEnd(); k++ )
           tableiter_++;
       }
       current_tile_++;
-- 
2.43.0


From a56b0165e33f59a5f7cf5eec3f7b4dfe48a8b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 73/85] fix: MTQueueChannel hung on errors and closed channels,
 lost events and errors on close, and looked at the remote channel while it
 was in use

---
 AppAgent/AppAgent/src/EventChannel.cc   |   3 +-
 AppAgent/AppAgent/src/MTQueueChannel.cc | 184 +++++++++++++++++-------
 AppAgent/AppAgent/src/MTQueueChannel.h  |  14 ++
 3 files changed, 149 insertions(+), 52 deletions(-)

diff --git a/AppAgent/AppAgent/src/EventChannel.cc b/AppAgent/AppAgent/src/EventChannel.cc
index aca2533..9648d46 100644
--- a/AppAgent/AppAgent/src/EventChannel.cc
+++ b/AppAgent/AppAgent/src/EventChannel.cc
@@ -103,6 +103,8 @@ void EventChannel::renameRecording (const string &from,const string &to)
 
 void EventChannel::close (const string &str)
 {
+  // whatever goes wrong with the recordings below, the channel is closed
+  setState(CLOSED,str);
   if( record_input_.isOpen() )
   {
     string fname = record_input_.fileName();
@@ -117,7 +119,6 @@ void EventChannel::close (const string &str)
     if( delete_on_abort_ ) // success, so rename tmp file to real file
       renameRecording(fname,record_output_filename_);
   }
-  setState(CLOSED,str);
 }
     
 void EventChannel::abort (const string &str)
diff --git a/AppAgent/AppAgent/src/MTQueueChannel.cc b/AppAgent/AppAgent/src/MTQueueChannel.cc
index e56eb83..fc7adb7 100644
--- a/AppAgent/AppAgent/src/MTQueueChannel.cc
+++ b/AppAgent/AppAgent/src/MTQueueChannel.cc
@@ -43,7 +43,7 @@ MTQueueChannel::MTQueueChannel (const EventChannel::Ref &channel)
   premote_ = remote_chanref_.dewr_p();
   setState(CLOSED);
   remote_thread_ = 0;
-  aborted_ = false;
+  aborted_ = remote_initialized_ = remote_closed_ = remote_posting_ = false;
 }
 
 MTQueueChannel::MTQueueChannel (EventChannel *pchannel)
@@ -51,12 +51,20 @@ MTQueueChannel::MTQueueChannel (EventChannel *pchannel)
   remote_chanref_ <<= premote_ = pchannel;
   setState(CLOSED);
   remote_thread_ = 0;
+  aborted_ = remote_initialized_ = remote_closed_ = remote_posting_ = false;
 }
 
 MTQueueChannel::~MTQueueChannel ()
 {
-  if( state() != CLOSED )
-    close("destroying queue channel");
+  try
+  {
+    if( state() != CLOSED )
+      close("destroying queue channel");
+  }
+  catch( std::exception &exc )  // errors can't be reported from a destructor
+  {
+    cdebug(1)<<"error closing channel: "<<exceptionToString(exc)<<endl;
+  }
 }
 
 void * MTQueueChannel::start_workerThread (void *args)
@@ -83,9 +91,10 @@ int MTQueueChannel::init (const DMI::Record &data)
   FailWhen(queue_size_<1,"illegal queue size");
   post_queue_.clear();
   get_queue_.clear();
+  err_queue_.clear();
   // launch worker thread
   initrec_.attach(data);
-  remote_initialized_ = false;
+  aborted_ = remote_initialized_ = remote_closed_ = remote_posting_ = false;
   remote_thread_ = Thread::create(start_workerThread,this);
   return state();
 }
@@ -106,27 +115,22 @@ void * MTQueueChannel::runWorker ()
   {
     err_queue_.add(exc);
   }
+  remote_closed_ = ( remote().state() == CLOSED );
   remote_initialized_ = true;  // set initialized flag and wake main thread if waiting
   eventFlag().condVar().broadcast();
   initrec_.detach();
   while( remote().state() != CLOSED || !get_queue_.empty() )
   {
     // if any errors have accumulated, wait for exception queue to clear
-    while( !err_queue_.empty() )
-    {
-      // has channel been closed? break out
-      if( state() == CLOSED )
-        remote().close();
-      if( remote().state() == CLOSED )
-        continue;
+    // (or for our end of the channel to be closed)
+    while( !err_queue_.empty() && state() != CLOSED && remote().state() != CLOSED )
       eventFlag().condVar().wait();
-    }
     // clear the post_queue of any accumulated events
     while( !post_queue_.empty() )
     {
-      // has remote channel been closed? close & discard queue then
-      if( state() == CLOSED )
-        aborted_ ? remote().abort() : remote().close();
+      // has channel been aborted, or has remote channel been closed? discard queue then
+      if( aborted_ )
+        closeRemote();
       if( remote().state() == CLOSED )
       {
         post_queue_.clear();
@@ -140,25 +144,40 @@ void * MTQueueChannel::runWorker ()
       // we post the event, so that main
       // thread has a chance to post something else
       raiseEventFlag();
+      remote_posting_ = true;
       lock.release();
+      DMI::ExceptionList errors;
       try
       {
         remote().postEvent(qe.id,qe.data,qe.category,qe.addr);
       }
       catch( std::exception &exc )
       {
-        lock.lock(eventFlag().condVar());
-        err_queue_.add(exc);
-        eventFlag().condVar().broadcast();
-        continue;
+        errors.add(exc);
       }
+      catch( ... )
+      {
+        errors.add(LOFAR::Exception("unknown exception posting event"));
+      }
+      qe.data.detach();
       lock.lock(eventFlag().condVar());
+      remote_posting_ = false;
+      remote_closed_ = ( remote().state() == CLOSED );
+      if( !errors.empty() )
+        err_queue_.add(static_cast<const std::exception &>(errors));
+      eventFlag().condVar().broadcast();
+      // wait for main thread to pick up the error, before going on
+      while( !err_queue_.empty() && state() != CLOSED && remote().state() != CLOSED )
+        eventFlag().condVar().wait();
     }
     // clear our event flag since our queue is clear
     clearEventFlag();
+    // if our end has been closed, close the remote channel
+    if( state() == CLOSED )
+      closeRemote();
     // if input queue is full, wait on the event flag for the main app
     // either to retrieve a message, or to post something else
-    if( get_queue_.size() >= queue_size_ )
+    if( get_queue_.size() >= queue_size_ && remote().state() != CLOSED )
     {
       eventFlag().condVar().wait(); // will relock mutex on exit
       continue;
@@ -166,12 +185,14 @@ void * MTQueueChannel::runWorker ()
     // clear event flag again
     clearEventFlag();
     // if remote channel is closed, wait for get_queue to clear up and exit
-    if( state() == CLOSED )
-      aborted_ ? remote().abort() : remote().close();
     if( remote().state() == CLOSED )
     {
-      while( !get_queue_.empty() )
+      remote_closed_ = true;
+      eventFlag().condVar().broadcast();
+      while( !get_queue_.empty() && state() != CLOSED )
         eventFlag().condVar().wait(); // will relock mutex on exit
+      if( state() == CLOSED )
+        get_queue_.clear();
       continue;
     }
     // get_queue has space. Wait for event to arrive. We don't release the lock
@@ -184,9 +205,11 @@ void * MTQueueChannel::runWorker ()
     catch( std::exception &exc )
     {
       err_queue_.add(exc);
+      remote_closed_ = ( remote().state() == CLOSED );
       eventFlag().condVar().broadcast();
       continue;
     }
+    remote_closed_ = ( remote().state() == CLOSED );
     // post event if we have one
     if( stat == AppEvent::SUCCESS )
     {
@@ -199,26 +222,43 @@ void * MTQueueChannel::runWorker ()
       raiseEventFlag();
     }
     // check if channel has closed
-    if( state() == CLOSED )
-      aborted_ ? remote().abort() : remote().close();
-    if( remote().state() == CLOSED )
+    if( state() == CLOSED || remote().state() == CLOSED )
       continue;   // back up to top, we break out only when queue is empty
     // now sleep on flag if we had no events
     if( stat == AppEvent::WAIT ) 
       eventFlag().condVar().wait();
    // go back to top of loop to check the post_queue
   }
+  remote_closed_ = true;
   eventFlag().condVar().broadcast();
   return 0;
 }
 
+void MTQueueChannel::closeRemote ()
+{
+  if( remote().state() == CLOSED )
+    return;
+  try
+  {
+    if( aborted_ )
+      remote().abort();
+    else
+      remote().close();
+  }
+  catch( std::exception &exc )
+  {
+    err_queue_.add(exc);
+  }
+  remote_closed_ = ( remote().state() == CLOSED );
+}
+
 void MTQueueChannel::postEvent (const HIID &id,const ObjRef &data,
                                 AtomicID category,const HIID &destination)
 {
   // obtain lock on event flag
   Thread::Mutex::Lock lock(eventFlag().condVar());
   assureRemoteInit();
-  if( remote().state() == CLOSED )
+  if( remote_closed_ )
   {
     lock.release();
     close(remote().stateString());
@@ -226,7 +266,7 @@ void MTQueueChannel::postEvent (const HIID &id,const ObjRef &data,
   }
   checkErrorQueue();
   // as long as the post queue is full, wait on the flag
-  while( post_queue_.size() >= queue_size_ && err_queue_.empty() )
+  while( post_queue_.size() >= queue_size_ && err_queue_.empty() && !remote_closed_ )
     eventFlag().condVar().wait();
   checkErrorQueue();
   post_queue_.push_back(QueueEntry());
@@ -258,23 +298,22 @@ int MTQueueChannel::getEvent (HIID &id,ObjRef &data,
   // check error queue
   checkErrorQueue();
   // if get_queue is empty, return WAIT or block or close
+  if( wait == WAIT )
+  {
+    while( get_queue_.empty() && err_queue_.empty() && !remote_closed_ )
+      eventFlag().condVar().wait();
+  }
+  checkErrorQueue();
   if( get_queue_.empty() )
   {
-    if( remote().state() == CLOSED )
+    if( remote_closed_ )
     {
       lock.release();
       close(remote().stateString());
       return CLOSED;
     }
-    if( wait == WAIT )
-    {
-      while( get_queue_.empty() && err_queue_.empty() )
-        eventFlag().condVar().wait();
-    }
-    else
-      return WAIT;
+    return WAIT;
   }
-  checkErrorQueue();
   // ok, get_queue not empty, check head
   QueueEntry & qe = get_queue_.front();
   if( !mask.empty() && !mask.matches(qe.id) )
@@ -297,7 +336,7 @@ int MTQueueChannel::hasEvent (const HIID &mask,HIID &out)
   // if queue is empty, check if remote channel is closed
   if( get_queue_.empty() )
   {
-    if( remote().state() == CLOSED )
+    if( remote_closed_ )
     {
       lock.release();
       close(remote().stateString());
@@ -314,34 +353,60 @@ int MTQueueChannel::hasEvent (const HIID &mask,HIID &out)
 
 void MTQueueChannel::close (const string &str)
 {
-  EventChannel::close(str);
   // do nothing if no remote is running
   if( !remote_thread_ )
+  {
+    EventChannel::close(str);
     return;
-  // if closing normally (i.e. not from abort()), flush the output queue
-  if( !aborted_ )
-    flush();
-  // clear all queues and signal remote to close
+  }
+  DMI::ExceptionList errors;
   Thread::Mutex::Lock lock(eventFlag().condVar());
   assureRemoteInit();
+  // if closing normally (i.e. not from abort()), flush the output queue. Pick up
+  // any errors as we go, since the worker thread waits for this
+  waitForFlush(errors);
+  // clear all queues and signal remote to close
+  try
+  {
+    EventChannel::close(str);
+  }
+  catch( std::exception &exc )
+  {
+    errors.add(exc);
+  }
   get_queue_.clear();
   post_queue_.clear();
   // raise event flag to notify remote
   raiseEventFlag();
-  while( remote().state() != CLOSED )
-    eventFlag().condVar().wait();
   lock.release();
   // now rejoin remote thread
   remote_thread_.join();
   remote_thread_ = 0;
   // check for errors
-  checkErrorQueue();
+  if( !err_queue_.empty() )
+    errors.add(static_cast<const std::exception &>(err_queue_));
+  err_queue_.clear();
+  if( !errors.empty() )
+    throw errors;
 }
 
 void MTQueueChannel::abort (const string &str)
 {
-  aborted_ = true;
-  EventChannel::abort(str);
+  if( remote_thread_ )
+  {
+    Thread::Mutex::Lock lock(eventFlag().condVar());
+    aborted_ = true;
+  }
+  // channels are aborted in response to an error, so further errors
+  // are of no consequence
+  try
+  {
+    EventChannel::abort(str);
+  }
+  catch( std::exception &exc )
+  {
+    cdebug(1)<<"error aborting channel: "<<exceptionToString(exc)<<endl;
+  }
 }
 
 void MTQueueChannel::solicitEvent (const HIID &mask)
@@ -361,12 +426,29 @@ bool MTQueueChannel::isEventBound (const HIID &id,AtomicID category)
 void MTQueueChannel::flush ()
 {
   // flush the post queue
+  DMI::ExceptionList errors;
   Thread::Mutex::Lock lock(eventFlag().condVar());
   assureRemoteInit();
-  while( !aborted_ && !post_queue_.empty() )
-    eventFlag().condVar().wait();
+  waitForFlush(errors);
+  lock.release();
+  if( !errors.empty() )
+    throw errors;
 }
 
-
+void MTQueueChannel::waitForFlush (DMI::ExceptionList &errors)
+{
+  for(;;)
+  {
+    if( !err_queue_.empty() )
+    {
+      errors.add(static_cast<const std::exception &>(err_queue_));
+      err_queue_.clear();
+      eventFlag().condVar().broadcast();
+    }
+    if( aborted_ || remote_closed_ || ( post_queue_.empty() && !remote_posting_ ) )
+      return;
+    eventFlag().condVar().wait();
+  }
+}
 
 }
diff --git a/AppAgent/AppAgent/src/MTQueueChannel.h b/AppAgent/AppAgent/src/MTQueueChannel.h
index 48b35f4..f2953c1 100644
--- a/AppAgent/AppAgent/src/MTQueueChannel.h
+++ b/AppAgent/AppAgent/src/MTQueueChannel.h
@@ -153,6 +153,14 @@ class MTQueueChannel : public EventChannel
         eventFlag().condVar().wait();
     }
     
+    // helper method: waits for the worker thread to post everything in the 
+    // post queue, collects errors. !!! caller must have lock on eventFlag().condVar()
+    void waitForFlush (DMI::ExceptionList &errors);
+      
+    // helper method for worker thread: closes or aborts the remote channel,
+    // adds any errors to the error queue
+    void closeRemote ();
+    
     // helper method: if error list is not empty, grabs a copy of the list,
     // clears the list, wakes up remote thread, and throws list as exception
     void checkErrorQueue ();
@@ -191,6 +199,12 @@ class MTQueueChannel : public EventChannel
     
     // flag: remote channel has completed its init
     bool remote_initialized_;
+    // flag: remote channel is closed. Maintained by the worker thread under 
+    // the event flag's lock, so that the main thread need not look at the 
+    // remote channel while the worker is using it
+    bool remote_closed_;
+    // flag: worker thread is currently posting an event to the remote channel
+    bool remote_posting_;
     // flag: main channel has been aborted rather than closed
     bool aborted_;
 };
-- 
2.43.0


From f443c1872e55e79485f33b533c122d7409a14436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 74/85] fix: a fail from an exception was cached without the
 node's own dependencies

---
 MEQ/src/Node.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 6f04fce..ef398db 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -1181,6 +1181,8 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   try
   {
     lock.relock(execCond());
+    // a fail depends on (at least) the same things as a result would have
+    retcode |= getDependMask();
     ret = cacheResult(ref,req,retcode|RES_FAIL) | RES_UPDATED;
   }
   catch( ... )
-- 
2.43.0


From 578416a66f1cd4991a518fdf078fd501f03d4ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 75/85] fix: VisDataMux accepted an unknown input specification
 and refused an empty output one

---
 MeqServer/src/VisDataMux.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index 1a18534..f2d64be 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -106,7 +106,7 @@ void Meq::VisDataMux::initInput (const DMI::Record &rec)
     newchannel <<= new BOIOChannel;
   else if( (prec = rec[FDefault].as_po<DMI::Record>()) != 0 )
     newchannel <<= new EventChannel;
-  else if( !rec.size() ) // empty record means no channel
+  else // can't do without an input channel
     Throw("invalid specification for input channel");
   // max tiles specification
   max_tiles_ = rec[FMaxTiles].as<int>(-1);
@@ -141,7 +141,7 @@ void Meq::VisDataMux::initOutput (const DMI::Record &rec)
     newchannel <<= new BOIOChannel;
   else if( (prec = rec[FDefault].as_po<DMI::Record>()) != 0 )
     newchannel <<= new EventChannel;
-  else if( !rec.size() ) // empty record means no channel
+  else if( rec.size() ) // empty record means no channel
     Throw("invalid specification for output channel");
   // detach old channel
   if( output_channel_.valid() )
-- 
2.43.0


From 704943dd42a7a0e61d442b53819e8b00d80bc55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 76/85] fix: VellSet: adding a fail no longer discards the
 fails already there

---
 MEQ/src/VellSet.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index df0b232..00ecb3a 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -598,7 +598,9 @@ void VellSet::setPerturbedValue (int i,Vells::Ref &ref,int iset,int flags)
 void VellSet::addFail (const ObjRef &ref)
 {
   Thread::Mutex::Lock lock(mutex());
-  clear();
+  // further fails are added to the ones already here
+  if( !is_fail_ )
+    clear();
   is_fail_ = true;
   // clear out the DR
   Record::removeField(FValue,true,0);
-- 
2.43.0


From f0a2cadedbf79f288efa77d4bf44fdb69d28e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 77/85] fix: Function: an element whose operands failed is a
 fail, not missing data

---
 MEQ/src/Function.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 50ea760..866b1b5 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -196,8 +196,8 @@ int Function::getResult (Result::Ref &resref,
     // If every child value is missing, then we return no data for this VellSet
     // Otherwise, we have a case of some values present, and some missing. This is only supported by some node classes:
     // these will have called allowMissingData() in their constructor. If this is not supported, then we return no
-    // data as well.
-    if( nmissing )
+    // data as well. Any fails take precedence over missing data.
+    if( nmissing && !vellset.isFail() )
     {
       if( nmissing == nrch || !allow_missing_data_ )
       {
-- 
2.43.0


From 591c52885d796400f926e9fbc1d2c6ec434c7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 78/85] fix: Composer: count failed and missing elements of the
 tensor actually composed

---
 MeqNodes/src/Composer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/Composer.cc b/MeqNodes/src/Composer.cc
index 02d83b5..246aa79 100644
--- a/MeqNodes/src/Composer.cc
+++ b/MeqNodes/src/Composer.cc
@@ -144,6 +144,8 @@ int Composer::getResult (Result::Ref &resref,
           vsref <<= &( chres.vellSet(0) );
           if( vsref->isFail() )
             nfails += nres0;
+          else if( vsref->isEmpty() )
+            nmissing += nres0;
         }
         else
         {
@@ -174,9 +176,11 @@ int Composer::getResult (Result::Ref &resref,
   }
   if( nres )
   {
-    if( nfails == nres )
+    // count planes of the output, since tensor mode may have replicated some
+    int nplanes = presult->numVellSets();
+    if( nfails == nplanes )
       return RES_FAIL;
-    if( nmissing == nres )
+    if( nmissing == nplanes )
       return RES_MISSING;
     // apply cells as needed
     if( pcells )
-- 
2.43.0


From d9204bcc8704b6d68c0d55e843eeed14d218ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 79/85] fix: Selector: a selection of fails and missing data is
 not merely missing data

---
 MeqNodes/src/Selector.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MeqNodes/src/Selector.cc b/MeqNodes/src/Selector.cc
index bdf8a26..b0cba95 100644
--- a/MeqNodes/src/Selector.cc
+++ b/MeqNodes/src/Selector.cc
@@ -77,6 +77,7 @@ int Selector::getResult (Result::Ref &resref,
         MakeFailVellSet(result.setNewVellSet(i),
             ssprintf("invalid selection index %d for Result of %d VellSet(s)",
                           isel,nvs));
+        missing = false;
       }
       else
       {
@@ -84,7 +85,7 @@ int Selector::getResult (Result::Ref &resref,
         result.setVellSet(i,vs);
         if( !vs.isFail() )
           fail = false;
-        if( !vs.isEmpty() )
+        if( vs.isFail() || !vs.isEmpty() )
           missing = false;
       }
     }
@@ -129,7 +130,7 @@ int Selector::getResult (Result::Ref &resref,
             setVellSet(0,vs);
       if( !vs.isFail() )
         fail = false;
-      if( !vs.isEmpty() )
+      if( vs.isFail() || !vs.isEmpty() )
         missing = false;
     }
     // else extract full slice
@@ -149,7 +150,7 @@ int Selector::getResult (Result::Ref &resref,
         result.setVellSet(i,vs);
         if( !vs.isFail() )
           fail = false;
-        if( !vs.isEmpty() )
+        if( vs.isFail() || !vs.isEmpty() )
           missing = false;
         // update offset
         for( int idim = rank-1; idim>=0; idim-- )
-- 
2.43.0


From 9718415e620a2e9eb331fa12e2812d7465b72576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:55 +0000
Subject: [PATCH 80/85] fix: acquire the GIL before finalizing Python, so that
 a halted meqserver does not crash on exit

---
 MeqServer/src/MeqPython.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MeqServer/src/MeqPython.cc b/MeqServer/src/MeqPython.cc
index cc86966..d07d242 100644
--- a/MeqServer/src/MeqPython.cc
+++ b/MeqServer/src/MeqPython.cc
@@ -606,6 +606,8 @@ void destroyMeqPython ()
 {
   if( meq_initialized )
   {
+    // the GIL was released at the end of initMeqPython(), and is needed to finalize
+    PyGILState_Ensure();
     Py_Finalize();
     meq_initialized = false;
   }
-- 
2.43.0


From 37613c44ad27b8f912c1e93519f997427fcd8cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 81/85] fix: let one thread write to a gateway, so that
 messages arrive in the order sent

---
 OCTOPUSSY/src/MTGatewayWP.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/MTGatewayWP.h b/OCTOPUSSY/src/MTGatewayWP.h
index 1be1031..17b9347 100755
--- a/OCTOPUSSY/src/MTGatewayWP.h
+++ b/OCTOPUSSY/src/MTGatewayWP.h
@@ -209,7 +209,9 @@ class MTGatewayWP : public WorkProcess  //## Inherits: <unnamed>%3C90BF100390
       bool shutting_down;
       
     //##ModelId=3DB958F301FE
-      static const int NumWriterThreads = 2, NumReaderThreads = 2;
+      // one writer only: with several, messages taken off the queue in order
+      // could still reach the socket out of order
+      static const int NumWriterThreads = 1, NumReaderThreads = 2;
     //##ModelId=3DB958F3022F
       typedef struct {
         Thread::ThrID thr_id; 
-- 
2.43.0


From f0acf33750d685631d4caba7e2e6e96e8160bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 82/85] fix: answer a malformed command with an error instead
 of leaving the server's loop

---
 MeqServer/src/MeqServer.cc | 39 +++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index 1a37a1e..0ba3d4b 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -1184,13 +1184,27 @@ DMI::Record::Ref MeqServer::executeCommand (const HIID &cmdid,DMI::Record::Ref &
   int command_index = cmddata[FCommandIndex].as<int>(0);
   if( command_index )
     qe.reply |= command_index;
-  qe.args    = cmddata[FArgs].remove();
-  if( !qe.args.valid() )
-    qe.args <<= new DMI::Record;
-  qe.silent  = !post_results || qe.args[FSilent].as<bool>(false);
-  // a command may be explicitly specified as sync (but not vice versa --
-  // sync=false is always overridden if command is in the sync map)
-  bool sync = qe.args[FSync].as<bool>(false);
+  bool sync;
+  try
+  {
+    qe.args    = cmddata[FArgs].remove();
+    if( !qe.args.valid() )
+      qe.args <<= new DMI::Record;
+    qe.silent  = !post_results || qe.args[FSilent].as<bool>(false);
+    // a command may be explicitly specified as sync (but not vice versa --
+    // sync=false is always overridden if command is in the sync map)
+    sync = qe.args[FSync].as<bool>(false);
+  }
+  catch( std::exception &exc )
+  {
+    // malformed arguments: this is an error in the command, not in the server
+    if( !post_results )
+      throw;
+    DMI::Record::Ref out(DMI::ANONWR);
+    out[AidError] = exceptionToObj(exc);
+    control().postEvent(qe.reply,out);
+    return result;
+  }
   // find command in async map first, then sync map
   qe.proc = 0;
   CommandMap::const_iterator iter = async_commands.find(qe.command);
@@ -1293,8 +1307,15 @@ void MeqServer::run ()
         postError("command "+cmdid.toString('.')+" does not contain a record, ignoring");
       else
       {
-        DMI::Record::Ref cmdrec = cmd_data;
-        executeCommand(cmdid,cmdrec,true); // true=post results to output
+        try
+        {
+          DMI::Record::Ref cmdrec = cmd_data;
+          executeCommand(cmdid,cmdrec,true); // true=post results to output
+        }
+        catch( std::exception &exc )
+        {
+          postError(exc);
+        }
       }
     }
     // else process some explicit commands
-- 
2.43.0


From 1810509f257ef2c78108fd108061e3e49eca704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 83/85] fix: report an execute() before init() as a failed
 result, execute() may not throw

---
 MEQ/src/Node.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index ef398db..276fa03 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -948,7 +948,6 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   pstate_lock_ = &state_lock;
 
   cdebug(3)<<"execute, request ID "<<req.id()<<": "<<req.sdebug(DebugLevel-1,"    ")<<endl;
-  FailWhen(internal_init_index_<0,"execute() called before init()");
   int retcode = 0;
   // this indicates the current stage (for exception handler)
   string stage;
@@ -960,6 +959,9 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     if( forest().abortFlag() )
       return exitAbort(RES_ABORT);
     timers_.total.start();
+    // this method may not throw, so an uninitialized node has to return a fail
+    stage = "checking node state";
+    FailWhen(internal_init_index_<0,"execute() called before init()");
     if( forest().debugLevel()>1 )
       wstate()[FNewRequest].replace() <<= req;
     setExecState(CS_ES_REQUEST);
-- 
2.43.0


From 6ddefa3c4a92bcb761a33f19b4774ce2ab6fee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:17 +0000
Subject: [PATCH 84/85] fix: a node index equal to the size of the repository
 is out of range

---
 MEQ/src/Forest.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 713888a..71a2ce3 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -196,7 +196,7 @@ void Forest::initAll ()
 //##ModelId=3F5F5CA300E0
 int Forest::remove (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -220,7 +220,7 @@ int Forest::remove (int node_index)
 //##ModelId=3F5F5B4F01BD
 NodeFace & Forest::get (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -249,7 +249,7 @@ NodeFace & Forest::findNode (const string &name)
   FailWhen(iter == name_map.end(),"node '"+name+"' not found");
   int node_index = iter->second;
   // debug-fails here since name map should be consistent with repository
-  DbgFailWhen(node_index<=0 || node_index>int(nodes.size()),"invalid node index");
+  DbgFailWhen(node_index<=0 || node_index>=int(nodes.size()),"invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   DbgFailWhen(!ref.valid(),"invalid node index");
   return ref();
@@ -258,7 +258,7 @@ NodeFace & Forest::findNode (const string &name)
 //##ModelId=3F7048570004
 const NodeFace::Ref & Forest::getRef (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   return nodes[node_index];
 }
-- 
2.43.0


From 611b7b0382a7d5a6c32b9a4791e4a8ea52f2ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:46 +0000
Subject: [PATCH 85/85] fix: look nodes up under the forest mutex and keep them
 alive, so that asking about a forest that is being changed does not crash the
 server

---
 MEQ/src/Forest.cc          | 60 ++++++++++++++++++++++++++------------
 MEQ/src/Forest.h           | 12 ++++++--
 MeqServer/src/MeqServer.cc | 44 +++++++++++++++++++---------
 MeqServer/src/MeqServer.h  |  2 +-
 4 files changed, 82 insertions(+), 36 deletions(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 71a2ce3..6b80cf4 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -85,9 +85,19 @@ Forest::Forest ()
 void Forest::clear ()
 {
   wstate()[FNumInitErrors] = num_init_errors = 0;
-  nodes.resize(1);
-  name_map.clear();
-  num_valid_nodes = 0;
+  // take the nodes out of the repository, so that they are destroyed without
+  // holding the mutex
+  Repository old_nodes;
+  {
+    Thread::Mutex::Lock lock(forestMutex());
+    old_nodes.swap(nodes);
+    nodes.reserve(RepositoryChunkSize);
+    nodes.resize(1);
+    child_lists.clear();
+    name_map.clear();
+    num_valid_nodes = 0;
+  }
+  old_nodes.clear();
   logger_.close();
   Axis::resetDefaultMap();
 }
@@ -99,6 +109,7 @@ NodeFace & Forest::create (int &node_index,DMI::Record::Ref &initrec,bool reinit
   string nodename;
   NodeFace::Ref noderef;
   NodeFace *pnode;
+  ObjRef children,stepchildren;
   // get class from initrec and try to construct a node of that class
   try
   {
@@ -129,6 +140,9 @@ NodeFace & Forest::create (int &node_index,DMI::Record::Ref &initrec,bool reinit
       node_index = nodes.size();
     // if this is an actual node and not some weird NodeFace variation, reattach its inti-record
     pnode->setNameAndIndex(nodename,node_index);
+    // keep refs to children lists, for getNodeList()
+    children = (*initrec)[FChildren].ref(true);
+    stepchildren = (*initrec)[FStepChildren].ref(true);
     Node *pnode1 = dynamic_cast<Meq::Node*>(pnode);
     if( pnode1 )
     {
@@ -149,11 +163,13 @@ NodeFace & Forest::create (int &node_index,DMI::Record::Ref &initrec,bool reinit
     Throw("failed to create node '"+nodename +"' of class "+classname);
   }
   // resize repository as needed, and put node into it
+  Thread::Mutex::Lock lock(forestMutex());
   if( node_index >= int(nodes.capacity()) )
     nodes.reserve(node_index + RepositoryChunkSize);
   if( node_index >= int(nodes.size()) )
     nodes.resize(node_index+1);
   nodes[node_index] = noderef;
+  child_lists[node_index] = std::make_pair(children,stepchildren);
   // add to repository and name map
   num_valid_nodes++;
   if( !nodename.empty() )
@@ -198,11 +214,14 @@ int Forest::remove (int node_index)
 {
   FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
-  NodeFace::Ref &ref = nodes[node_index];
-  FailWhen(!ref.valid(),"invalid node index");
-  string name = ref->name();
-  // detach the node & shrink repository if needed
-  ref.detach();
+  // take the node out of the repository (NB: ref is destroyed after the lock)
+  NodeFace::Ref ref;
+  Thread::Mutex::Lock lock(forestMutex());
+  FailWhen(!nodes[node_index].valid(),"invalid node index");
+  string name = nodes[node_index]->name();
+  ref.xfer(nodes[node_index]);
+  child_lists.erase(node_index);
+  // shrink repository if needed
   if( node_index == int(nodes.size())-1 )
     nodes.resize(node_index);
   num_valid_nodes--;
@@ -220,6 +239,7 @@ int Forest::remove (int node_index)
 //##ModelId=3F5F5B4F01BD
 NodeFace & Forest::get (int node_index)
 {
+  Thread::Mutex::Lock lock(forestMutex());
   FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
@@ -230,6 +250,7 @@ NodeFace & Forest::get (int node_index)
 //##ModelId=3F5F5B9D016A
 bool Forest::valid (int node_index) const
 {
+  Thread::Mutex::Lock lock(forestMutex());
   return node_index>0 && node_index<int(nodes.size())
          && nodes[node_index].valid();
 }
@@ -237,6 +258,7 @@ bool Forest::valid (int node_index) const
 //##ModelId=3F5F5BB2032C
 int Forest::findIndex (const string& name) const
 {
+  Thread::Mutex::Lock lock(forestMutex());
   NameMap::const_iterator iter = name_map.find(name);
   return iter == name_map.end() ? -1 : iter->second;
 }
@@ -244,6 +266,7 @@ int Forest::findIndex (const string& name) const
 //##ModelId=3F60549B02FE
 NodeFace & Forest::findNode (const string &name)
 {
+  Thread::Mutex::Lock lock(forestMutex());
   // lookup node index in map
   NameMap::const_iterator iter = name_map.find(name);
   FailWhen(iter == name_map.end(),"node '"+name+"' not found");
@@ -256,10 +279,11 @@ NodeFace & Forest::findNode (const string &name)
 }
 
 //##ModelId=3F7048570004
-const NodeFace::Ref & Forest::getRef (int node_index)
+NodeFace::Ref Forest::getRef (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
-          "invalid node index");
+  Thread::Mutex::Lock lock(forestMutex());
+  if( node_index<=0 || node_index>=int(nodes.size()) )
+    return NodeFace::Ref();
   return nodes[node_index];
 }
 
@@ -329,15 +353,15 @@ int Forest::getNodeList (DMI::Record &list,int content)
         }
         if( lchildren )
         {
-          node.getState(nodestate);
-          DMI::Record::Hook hook(*nodestate,FChildren);
-          if( hook.exists() )
-            lchildren->addBack(hook.ref(true));
+          // NB: the state record may be changing in another thread, so use
+          // the lists that the node was created with
+          const std::pair<ObjRef,ObjRef> &chlist = child_lists[i];
+          if( chlist.first.valid() )
+            lchildren->addBack(chlist.first);
           else
             lchildren->addBack(new DMI::List);
-          DMI::Record::Hook hook1(*nodestate,FStepChildren);
-          if( hook1.exists() )
-            lstepchildren->addBack(hook1.ref(true));
+          if( chlist.second.valid() )
+            lstepchildren->addBack(chlist.second);
           else
             lstepchildren->addBack(new DMI::List);
         }
diff --git a/MEQ/src/Forest.h b/MEQ/src/Forest.h
index 4394619..005a6bd 100644
--- a/MEQ/src/Forest.h
+++ b/MEQ/src/Forest.h
@@ -83,8 +83,9 @@ class Forest
 
     //##ModelId=3F7048570004
     //##Documentation
-    //## Returns ref to repository's countedref, specified by index
-    const NodeFace::Ref & getRef (int node_index);
+    //## Returns a ref to the node specified by index, invalid if there's none.
+    //## (Unlike get(), this keeps the node alive.)
+    NodeFace::Ref getRef (int node_index);
 
     //##ModelId=3F5F5B9D016A
     bool valid (int node_index) const;
@@ -102,7 +103,7 @@ class Forest
 
     //##ModelId=400E530501C2
     int maxNodeIndex () const
-    { return nodes.size()-1; }
+    { Thread::Mutex::Lock lock(forestMutex()); return nodes.size()-1; }
 
     // fills DMI::Record with list of valid nodes, including information
     // specified by content
@@ -318,6 +319,11 @@ class Forest
     //##ModelId=3F5F439203E2
     Repository nodes;
 
+    // lists of children and stepchildren that nodes were created with, by index.
+    // NB: these, nodes, name_map and num_valid_nodes are protected by
+    // forestMutex(), since other threads may look nodes up at any time
+    std::map<int,std::pair<ObjRef,ObjRef> > child_lists;
+
     int num_valid_nodes;
 
     //##ModelId=3F60697A00A3
diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index 0ba3d4b..6d03492 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -217,21 +217,28 @@ static string makeNodeMessage (const string &msg1,const Meq::NodeFace &node,cons
 
 
 //##ModelId=3F6196800325
-NodeFace & MeqServer::resolveNode (bool &getstate,const DMI::Record &rec)
+NodeFace::Ref MeqServer::resolveNode (bool &getstate,const DMI::Record &rec)
 {
   int nodeindex = rec[AidNodeIndex].as<int>(-1);
   string name = rec[AidName].as<string>("");
   getstate = rec[FGetState].as<bool>(false);
+  // NB: a ref is returned, since the node may be deleted by another thread
   if( nodeindex>0 )
   {
-    NodeFace &node = forest.get(nodeindex);
-    FailWhen( name.length() && node.name() != name,"node specified by index is "+
-        node.name()+", which does not match specified name "+name);
-    return node;
+    NodeFace::Ref ref = forest.getRef(nodeindex);
+    FailWhen( !ref.valid(),"invalid node index");
+    FailWhen( name.length() && ref->name() != name,"node specified by index is "+
+        ref->name()+", which does not match specified name "+name);
+    return ref;
   }
   FailWhen( !name.length(),"either nodeindex or name must be specified");
   cdebug(3)<<"looking up node name "<<name<<endl;
-  return forest.findNode(name);
+  nodeindex = forest.findIndex(name);
+  NodeFace::Ref ref;
+  if( nodeindex>0 )
+    ref = forest.getRef(nodeindex);
+  FailWhen( !ref.valid() || ref->name() != name,"node '"+name+"' not found");
+  return ref;
 }
 
 
@@ -485,7 +492,8 @@ void MeqServer::deleteNode (DMI::Record::Ref &out,DMI::Record::Ref &in)
 void MeqServer::nodeGetState (DMI::Record::Ref &out,DMI::Record::Ref &in)
 {
   bool getstate;
-  NodeFace & node = resolveNode(getstate,*in);
+  NodeFace::Ref noderef = resolveNode(getstate,*in);
+  NodeFace & node = noderef();
   cdebug(3)<<"getState for node "<<node.name()<<" ";
   cdebug(4)<<in->sdebug(3);
   cdebug(3)<<endl;
@@ -504,7 +512,8 @@ void MeqServer::nodeSetState (DMI::Record::Ref &out,DMI::Record::Ref &in)
 {
   DMI::Record::Ref rec = in;
   bool getstate;
-  NodeFace & node = resolveNode(getstate,*rec);
+  NodeFace::Ref noderef = resolveNode(getstate,*rec);
+  NodeFace & node = noderef();
   cdebug(3)<<"setState for node "<<node.name()<<endl;
   DMI::Record::Ref ref = rec[AidState].ref();
   node.setState(ref);
@@ -607,7 +616,8 @@ void MeqServer::nodeExecute (DMI::Record::Ref &out,DMI::Record::Ref &in)
     forest.clearAbortFlag();
     DMI::Record::Ref rec = in;
     bool getstate;
-    NodeFace & node = resolveNode(getstate,*rec);
+    NodeFace::Ref noderef = resolveNode(getstate,*rec);
+    NodeFace & node = noderef();
     cdebug(2)<<"nodeExecute for node "<<node.name()<<endl;
     // take request object out of record
     Request &req = rec[AidRequest].as_wr<Request>();
@@ -801,9 +811,13 @@ void MeqServer::clearForest (DMI::Record::Ref &out,DMI::Record::Ref &in)
 void MeqServer::disablePublishResults (DMI::Record::Ref &out,DMI::Record::Ref &in)
 {
   cdebug(2)<<"disablePublishResults: disabling for all nodes"<<endl;
-  for( int i=0; i<=forest.maxNodeIndex(); i++ )
-    if( forest.valid(i) )
-      forest.get(i).setPublishingLevel(0);
+  for( int i=1; i<=forest.maxNodeIndex(); i++ )
+  {
+    // NB: the node may be deleted by another thread
+    NodeFace::Ref ref = forest.getRef(i);
+    if( ref.valid() )
+      ref().setPublishingLevel(0);
+  }
   out[AidMessage] = "snapshots disabled on all nodes";
   out[FDisabledAllPublishing] = true;
   fillForestStatus(out(),in[FGetForestStatus].as<int>(0));
@@ -895,7 +909,8 @@ void MeqServer::debugNextNode (DMI::Record::Ref &out,DMI::Record::Ref &in)
 void MeqServer::debugUntilNode (DMI::Record::Ref &out,DMI::Record::Ref &in)
 {
   bool getstate;
-  NodeFace & node = resolveNode(getstate,*in);
+  NodeFace::Ref noderef = resolveNode(getstate,*in);
+  NodeFace & node = noderef();
   // set one-shot breakpoint on anything in this node
   node.setBreakpoint(Node::CS_ALL,true);
   if( forest.isStopFlagRaised() )
@@ -1069,7 +1084,8 @@ bool MeqServer::execNodeCommand (DMI::Record::Ref &out,ExecQueueEntry &qe)
   // use argument record to resolve to a Node object, throw exception on failure
   bool getstate;
   int get_forest_status = (*qe.args)[FGetForestStatus].as<int>(0);
-  NodeFace &node = resolveNode(getstate,*qe.args);
+  NodeFace::Ref noderef = resolveNode(getstate,*qe.args);
+  NodeFace & node = noderef();
   // add node name to output event record
   out[AidNode] = node.name();
   // pass command to node. Exceptions will be caught by our caller's handler
diff --git a/MeqServer/src/MeqServer.h b/MeqServer/src/MeqServer.h
index b599e34..02b21b9 100644
--- a/MeqServer/src/MeqServer.h
+++ b/MeqServer/src/MeqServer.h
@@ -207,7 +207,7 @@ class MeqServer : public DMI::EventRecepient
     { return state_; }
       
     //##ModelId=3F6196800325
-    NodeFace & resolveNode (bool &getstate,const DMI::Record &rec);
+    NodeFace::Ref resolveNode (bool &getstate,const DMI::Record &rec);
 
     void reportNodeStatus  (Node &node,int oldstat,int newstat);
 
-- 
2.43.0

