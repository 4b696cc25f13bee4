From 959142540997a2e4f62513cec5fdde212b1823d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:12 +0000
Subject: [PATCH 01/32] fix: sampling stays inside the support at the extremes
 of the random source

A uniform draw of exactly 0 selected the element before the first one, a
draw next to 1 could run past the last cumulative weight, and asking for
zero samples with RIPLEY indexed element -1.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp    |  2 +-
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp |  9 +++++++--
 orocos_bfl/src/pdf/discretepdf.cpp            | 12 +++++++++---
 orocos_bfl/src/pdf/mcpdf.h                    | 11 +++++++++--
 orocos_bfl/src/pdf/mixture.h                  | 12 +++++++++---
 5 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 2b017ec..28b3e40 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -94,7 +94,7 @@ namespace BFL
 
     for ( int i = 0; i < numsamples ; i++)
       {
-	while ( _unif_samples[i] > *_CumPDFit )
+	while ( _unif_samples[i] > *_CumPDFit || *_CumPDFit == 0.0 )
 	  {
 	    assert(index <= (unsigned int)numsamples);
 	    index++; _oit++; _CumPDFit++; _cov_it++;
diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 250710e..e65c09f 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -159,13 +159,18 @@ namespace BFL
     assert ( (_valuelist[NumStatesGet()] >= 1.0 - NUMERIC_PRECISION) &&
 	     (_valuelist[NumStatesGet()] <= 1.0 + NUMERIC_PRECISION) );
 
-    _valuelist[NumStatesGet()]=1;
+    // Rounding may not leave a gap between the last possible state and 1
+    for ( index = NumStatesGet(); index > 0; index--)
+      {
+	_valuelist[index]=1;
+	if (_probs[index-1] > 0) break;
+      }
 
     // Sample from univariate uniform rng between 0 and 1;
     double unif_sample; unif_sample = runif();
     // Compare where we should be: THIS CAN BE MADE FASTER: TODO
     index = 0;
-    while ( unif_sample > _valuelist[index] )
+    while ( unif_sample > _valuelist[index] || _valuelist[index] == 0.0 )
       {
 	assert(index <= NumStatesGet());
 	index++;
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index d47ebf3..3d0b22e 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -143,6 +143,7 @@ namespace BFL
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      unif_samples[i] = runif();
 
+	    if (num_samples == 0) return true;
 	    /* take n-th racine of u_N */
 	    unif_samples[num_samples-1] = pow(unif_samples[num_samples-1],
 	  				   double (1.0/num_samples));
@@ -158,7 +159,7 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( unif_samples[i] > *CumPDFit || *CumPDFit == 0.0 )
 	        {
 	  	// check for internal error
 	  	assert(index <= num_states);
@@ -188,7 +189,7 @@ namespace BFL
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _CumPDF[index] )
+	  while ( unif_sample > _CumPDF[index] || _CumPDF[index] == 0.0 )
 	    {
 	      assert(index <= NumStatesGet());
 	      index++;
@@ -242,7 +243,12 @@ namespace BFL
     assert( (_CumPDF[NumStatesGet()] >= 1.0 - NUMERIC_PRECISION) &&
 	    (_CumPDF[NumStatesGet()] <= 1.0 + NUMERIC_PRECISION) );
 
-    _CumPDF[NumStatesGet()]=1;
+    // Rounding may not leave a gap between the last possible state and 1
+    for ( unsigned int k = NumStatesGet(); k > 0; k--)
+    {
+	    _CumPDF[k]=1;
+	    if ( (*_Values_p)[k-1] > 0) break;
+    }
 
     return true;
   }
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index e2390ff..ef8e216 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -253,6 +253,7 @@ namespace BFL
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      unif_samples[i] = runif();
 
+	    if (numsamples == 0) return true;
 	    /* take n-th racine of u_N */
 	    unif_samples[numsamples-1] = pow(unif_samples[numsamples-1], double (1.0/numsamples));
 	    /* rescale other samples */
@@ -271,7 +272,7 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      {
-		while ( unif_samples[i] > *CumPDFit )
+		while ( unif_samples[i] > *CumPDFit || *CumPDFit == 0.0 )
 		  {
 		    assert(index <= size);
 		    index++; it++; CumPDFit++;
@@ -308,7 +309,7 @@ namespace BFL
 	    typename vector<double>::const_iterator CumPDFit;
 	    CumPDFit = _CumPDF.begin();
 
-	    while ( unif_sample > *CumPDFit )
+	    while ( unif_sample > *CumPDFit || *CumPDFit == 0.0 )
 	      {
 		// check for internal error
 		assert(index <= size);
@@ -522,6 +523,12 @@ namespace BFL
 	  CumSum += ( it->WeightGet() / _SumWeights);
 	  *CumPDFit = CumSum;
 	}
+      // Rounding may not leave a gap between the last possible sample and 1
+      for ( unsigned int k = _listOfSamples.size() ; k > 0 ; k-- )
+	{
+	  _CumPDF[k] = 1.0;
+	  if (_listOfSamples[k-1].WeightGet() > 0) break;
+	}
     }
 
 
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d43118f..37a3436 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -302,6 +302,7 @@ template<typename T>
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      unif_samples[i] = runif();
 
+	    if (num_samples == 0) return true;
 	    /* take n-th racine of u_N */
 	    unif_samples[num_samples-1] = pow(unif_samples[num_samples-1],
 	  				   double (1.0/num_samples));
@@ -317,7 +318,7 @@ template<typename T>
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( unif_samples[i] > *CumPDFit || *CumPDFit == 0.0 )
 	        {
 	  	// check for internal error
 	  	assert(index <= num_states);
@@ -347,7 +348,7 @@ template<typename T>
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _cumWeights[index] )
+	  while ( unif_sample > _cumWeights[index] || _cumWeights[index] == 0.0 )
 	    {
 	      assert(index <= NumComponentsGet());
 	      index++;
@@ -594,7 +595,12 @@ template<typename T>
     assert( (_cumWeights[NumComponentsGet()] >= 1.0 - NUMERIC_PRECISION) &&
 	    (_cumWeights[NumComponentsGet()] <= 1.0 + NUMERIC_PRECISION) );
 
-    _cumWeights[NumComponentsGet()]=1;
+    // Rounding may not leave a gap between the last possible component and 1
+    for ( unsigned int k = NumComponentsGet(); k > 0; k--)
+    {
+	    _cumWeights[k]=1;
+	    if ( (*_componentWeights)[k-1] > 0) break;
+    }
     return true;
   }
 
-- 
2.43.0


From 0208e8b4fa3557a84c097307b3eb415c16531ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:12 +0000
Subject: [PATCH 02/32] fix: RIPLEY sampling of a mixture draws from the
 selected component

RIPLEY only orders the choice of components; no density implements it for
a single sample, so every sample of the list was left unset.
---
 orocos_bfl/src/pdf/mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 37a3436..58c813f 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -326,7 +326,7 @@ template<typename T>
 	        }
           // index-1 is a sample of the discrete pdf of the mixture weights
           // get a sample from the index-1'th mixture component
-	      (*_componentPdfs)[index-1]->SampleFrom(*sit,method,args);
+	      (*_componentPdfs)[index-1]->SampleFrom(*sit,SampleMthd::DEFAULT,args);
 	      sit++;
 	      }
 	    return true;
-- 
2.43.0


From a7993475a56f13e11e53fd782e64a2a74ef78d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:28 +0000
Subject: [PATCH 03/32] fix: no function-local static iterators in
 sample-based, discrete and mixture densities

Two independent densities used from two threads (or re-entrantly from a
model callback) shared these iterators.
---
 orocos_bfl/src/pdf/discretepdf.cpp |  2 +-
 orocos_bfl/src/pdf/mcpdf.h         | 16 ++++++++--------
 orocos_bfl/src/pdf/mixture.h       |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 3d0b22e..b5dc467 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -227,7 +227,7 @@ namespace BFL
   {
     // precondition: sum of probabilities should be 1
     double CumSum=0.0;
-    static vector<double>::iterator CumPDFit;
+    vector<double>::iterator CumPDFit;
     CumPDFit = _CumPDF.begin();
     *CumPDFit = 0.0;
 
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index ef8e216..8e3e006 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -350,8 +350,8 @@ namespace BFL
 #endif // __MCPDF_DEBUG__
       unsigned int ns = num_samples;
       unsigned int size = _listOfSamples.size();
-      static typename vector<double>::iterator CumPDFit;
-      static typename vector<WeightedSample<T> >::iterator it;
+      typename vector<double>::iterator CumPDFit;
+      typename vector<WeightedSample<T> >::iterator it;
       if (size < ns) // Add samples
 	{
 	  WeightedSample<T> ws;
@@ -397,7 +397,7 @@ namespace BFL
     {
       unsigned int numsamples = los.size();
       typename vector<Sample<T> >::const_iterator lit; lit=los.begin();
-      static typename vector<WeightedSample<T> >::iterator it;
+      typename vector<WeightedSample<T> >::iterator it;
       // Allocate necessary memory
       this->NumSamplesSet(numsamples);
       // Update the list of samples
@@ -446,7 +446,7 @@ namespace BFL
 	{
 	  assert (numsamples != 0);
 	  typename vector<Sample<T> >::const_iterator lit; lit=los.begin();
-	  static typename vector<WeightedSample<T> >::iterator it;
+	  typename vector<WeightedSample<T> >::iterator it;
 	  // Allocate necessary memory
 	  this->NumSamplesSet(numsamples);
 	  // Update the sumweights
@@ -468,7 +468,7 @@ namespace BFL
     {
       double SumOfWeights = 0.0;
       double current_weight;
-      static typename vector<WeightedSample<T> >::iterator it;
+      typename vector<WeightedSample<T> >::iterator it;
       for ( it = _listOfSamples.begin() ; it != _listOfSamples.end() ; it++ )
 	{
 	  current_weight = it->WeightGet();
@@ -492,7 +492,7 @@ namespace BFL
   template <typename T> bool
     MCPdf<T>::NormalizeWeights()
     {
-      static typename vector<WeightedSample<T> >::iterator it;
+      typename vector<WeightedSample<T> >::iterator it;
 
       // if sumweights = 0, something is wrong
       if (!this->SumWeightsUpdate()) return false;
@@ -511,8 +511,8 @@ namespace BFL
     MCPdf<T>::CumPDFUpdate()
     {
       double CumSum=0.0;
-      static typename vector<double>::iterator CumPDFit;
-      static typename vector<WeightedSample<T> >::iterator it;
+      typename vector<double>::iterator CumPDFit;
+      typename vector<WeightedSample<T> >::iterator it;
       CumPDFit = _CumPDF.begin(); *CumPDFit = 0.0;
 
       // Calculate the Cumulative PDF
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 58c813f..fb30b72 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -579,7 +579,7 @@ template<typename T>
   {
     // precondition: sum of probabilities should be 1
     double CumSum=0.0;
-    static vector<double>::iterator CumWeightsit;
+    vector<double>::iterator CumWeightsit;
     CumWeightsit = _cumWeights.begin();
     *CumWeightsit = 0.0;
 
-- 
2.43.0


From 943c8038450d41c765d972761553beef7a35e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:01 +0000
Subject: [PATCH 04/32] fix: weights that sum to zero are refused without
 destroying the belief

A measurement with zero likelihood everywhere overwrote the samples,
probabilities or mixture weights before the normalisation failed, and the
histogram filter reported success.
---
 orocos_bfl/src/filter/histogramfilter.cpp | 15 ++++++++-------
 orocos_bfl/src/filter/histogramfilter.h   |  4 ++--
 orocos_bfl/src/pdf/discretepdf.cpp        |  7 +++++++
 orocos_bfl/src/pdf/mcpdf.h                | 15 +++++++++++++++
 orocos_bfl/src/pdf/mixture.h              |  7 +++++++
 5 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index c3f47ce..0e8ccfb 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -38,7 +38,7 @@
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::SysUpdate(SystemModel<int>* const sysmodel, const int& u)
   {
     bool without_inputs = sysmodel->SystemWithoutInputs();
@@ -64,11 +64,11 @@
         }
        _new_prob[to_state] = temp;
     }
-    ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
+    return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel, const MeasVar& z, const int& s)
   {
       int num_states = ( (DiscretePdf*)this->_post )->NumStatesGet();
@@ -79,7 +79,7 @@
           else _old_prob[state] = _old_prob[state] * measmodel->ProbabilityGet(z,state,s);
           _old_prob[state] = (Probability)((double)( _old_prob[state]) );
       }
-      ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
+      return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
   }
 
   template <typename MeasVar>
@@ -89,9 +89,10 @@
 			       MeasurementModel<MeasVar,int>* const measmodel,
 			       const MeasVar& z, const int& s)
   {
-    if (sysmodel != NULL) 	SysUpdate(sysmodel,u);
-    if (measmodel != NULL)	MeasUpdate(measmodel,z,s);
-    return true;
+    bool result = true;
+    if (sysmodel != NULL) 	result = SysUpdate(sysmodel,u);
+    if (measmodel != NULL)	result = MeasUpdate(measmodel,z,s) && result;
+    return result;
   }
 
   template <typename MeasVar>
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 5992b08..951c11b 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -71,7 +71,7 @@ protected:
     @param sysmodel pointer to the system model the filter should use
     @param u input to the system
   */
-  void SysUpdate(SystemModel<int>* const sysmodel,
+  bool SysUpdate(SystemModel<int>* const sysmodel,
 			 const int& u);
 
   /// Measurement Update
@@ -83,7 +83,7 @@ protected:
       @param s input to the system (must be of the same type as u
       for now, since this was not yet implemented in ConditionalPdf
   */
-  void MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
+  bool MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
 			  const MeasVar& z,
 			  const int& s);
 
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index b5dc467..e74b711 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -118,6 +118,13 @@ namespace BFL
   {
     assert(v.size() == NumStatesGet());
 
+    double SumOfProbs = 0.0;
+    for ( unsigned int i = 0; i < NumStatesGet() ; i++)
+        SumOfProbs += v[i];
+    if (!(SumOfProbs > 0)){
+      cerr << "DiscretePdf::ProbabilitiesSet(): refused, SumOfProbs = " << SumOfProbs << endl;
+      return false;
+    }
     *_Values_p = v;
     //normalize the probabilities and update the cumulative sum
     return (NormalizeProbs() && CumPDFUpdate());
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index 8e3e006..7f65074 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -62,6 +62,8 @@ namespace BFL
       //  typename vector<double>::iterator CumPDFit;
 
 
+      /// Check that a list of samples carries weight (it is refused otherwise)
+      bool WeightsPossible(const vector<WeightedSample<T> > & los) const;
       /// After updating weights, we have to recalculate the sum of weights
       bool SumWeightsUpdate();
       /// Normalizing the weights
@@ -382,6 +384,7 @@ namespace BFL
   template <typename T> bool
     MCPdf<T>::ListOfSamplesSet(const vector<WeightedSample<T> > & los)
     {
+      if (!this->WeightsPossible(los)) return false;
       // Allocate necessary memory
       this->NumSamplesSet(los.size());
       _listOfSamples = los;
@@ -432,6 +435,7 @@ namespace BFL
       assert (los.size() == _listOfSamples.size());
       if (los.size() != 0)
 	{
+	  if (!this->WeightsPossible(los)) return false;
 	  _listOfSamples = los;
 	  return this->NormalizeWeights();
 	}
@@ -463,6 +467,17 @@ namespace BFL
     }
 
 
+  template <typename T> bool
+    MCPdf<T>::WeightsPossible(const vector<WeightedSample<T> > & los) const
+    {
+      double SumOfWeights = 0.0;
+      for ( unsigned int i = 0 ; i < los.size() ; i++ )
+	SumOfWeights += los[i].WeightGet();
+      if (SumOfWeights > 0) return true;
+      cerr << "MCPDF: list of samples refused, sum of weights = " << SumOfWeights << endl;
+      return false;
+    }
+
   template <typename T> bool
     MCPdf<T>::SumWeightsUpdate()
     {
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index fb30b72..ceffb68 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -407,6 +407,13 @@ template<typename T>
   {
     TestNotInit();
     assert(weights.size() == NumComponentsGet());
+    double SumOfWeights = 0.0;
+    for ( unsigned int i = 0; i < NumComponentsGet() ; i++)
+        SumOfWeights += weights[i];
+    if (!(SumOfWeights > 0)){
+      cerr << "Mixture::WeightsSet(): refused, SumOfWeights = " << SumOfWeights << endl;
+      return false;
+    }
     *_componentWeights = weights;
     //normalize the probabilities and update the cumulative sum
     return (NormalizeWeights() && CumWeightsUpdate());
-- 
2.43.0


From ca8bac6593b57053d4a0d68455d54d89c9c46f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:01 +0000
Subject: [PATCH 05/32] fix: mixture particle filter counts one time step per
 prediction and honours the maintenance period

The time step advanced once per component, so the resampling period was
divided by the number of components, and mixture maintenance ran on every
update whatever its period.
---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 54e675a..f298f08 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -185,6 +185,7 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternal(SystemModel<SV> * const sysmo
     {
         result = result && this->ProposalStepInternalOne(i,sysmodel,u,measmodel,z,s);
     }
+    (this->_timestep)++;
     return result;
 }
 
@@ -237,8 +238,6 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternalOne(int component, SystemModel
       _ns_it++;
     }
 
-  (this->_timestep)++;
-
   // Update the list of samples
   return (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(component)))->ListOfSamplesUpdate(_new_samplesVec[component]);
 
@@ -436,7 +435,7 @@ MixtureParticleFilter<SV,MV>::UpdateInternal(SystemModel<StateVar>* const sysmod
 
   // Mixture Computation: recompute mixture representation to take into account
   // possibly varying number of modes.
-  result = result && this->MaintainMixture();
+  result = result && this->MaintainMixtureStep();
 
   return result;
 }
-- 
2.43.0


From dac86191bde59bae34ad58ec3ad95c6cb1afde18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:08 +0000
Subject: [PATCH 06/32] fix: combined updates with sensor parameters keep the
 system/proposal density ratio

The particle filters dropped the ratio from the weight whenever the
measurement model had sensor parameters.
---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 8 +++-----
 orocos_bfl/src/filter/particlefilter.cpp        | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index f298f08..d8f6b5e 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -307,8 +307,10 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
 	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -334,10 +336,6 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 		  else weightfactor = 0;
 		}
 	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       double new_weight = _ns_it->WeightGet() * weightfactor;
       _ns_it->WeightSet(new_weight);
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 335b0bc..7afdce2 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -227,8 +227,10 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
 	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -254,10 +256,6 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 		  else weightfactor = 0;
 		}
 	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       _ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
 
-- 
2.43.0


From 8da23372da5740be750fc8695766f48e4dd51de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:02 +0000
Subject: [PATCH 07/32] fix: Reset gives a filter or smoother its own copy of
 the new prior

Reset made the posterior an alias of the caller's prior: the old posterior
leaked, later updates changed the caller's object and the destructor freed
it. Work-space sized for the old prior and the time step were kept.
---
 orocos_bfl/src/filter/filter.cpp                |  6 +++++-
 orocos_bfl/src/filter/histogramfilter.cpp       |  1 +
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 14 ++++++++++++--
 orocos_bfl/src/filter/particlefilter.cpp        | 13 +++++++++++++
 orocos_bfl/src/filter/particlefilter.h          |  5 +++++
 orocos_bfl/src/pdf/filterproposaldensity.cpp    |  7 +++++--
 orocos_bfl/src/smoother/backwardfilter.cpp      |  6 +++++-
 7 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/filter.cpp b/orocos_bfl/src/filter/filter.cpp
index 9d83057..480b467 100644
--- a/orocos_bfl/src/filter/filter.cpp
+++ b/orocos_bfl/src/filter/filter.cpp
@@ -40,8 +40,12 @@ Filter<SVar,MVar>::Filter(const Filter<SVar,MVar>& filt)
 template<typename SVar, typename MVar>  void
 Filter<SVar,MVar>::Reset(Pdf<SVar> * prior)
 {
+  // the posterior is owned by the filter: work on a copy of the prior
+  Pdf<SVar> * post = prior->Clone();
+  delete _post;
   _prior = prior;
-  _post = prior;
+  _post = post;
+  _timestep = 0;
   // cout << "Filter::Reset() Post = " << _post->ExpectedValueGet() << endl;
 }
 
diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index 0e8ccfb..1710fd7 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -45,6 +45,7 @@
     int num_states = ( (DiscretePdf*)this->_post )->NumStatesGet();
     _old_prob = ( (DiscretePdf*)this->_post )->ProbabilitiesGet();
 
+    _new_prob.resize(num_states);
     for (int to_state = 0; to_state< num_states ; to_state++)
     {
         double temp = 0;
diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index d8f6b5e..eb7b6b6 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -154,8 +154,18 @@ template <typename SV, typename MV> void
 MixtureParticleFilter<SV,MV>::Reset(Mixture<SV> * prior)
 {
     this->_prior = prior;
-    delete this->_post;
-    this->_post = prior->Clone();
+    Mixture<SV> * post = prior->Clone();
+    if (_created_post) delete this->_post;
+    this->_post = post;
+    this->_created_post = true;
+    this->_timestep = 0;
+    this->_old_samplesVec.resize(post->NumComponentsGet());
+    this->_new_samples_unweightedVec.resize(post->NumComponentsGet());
+    for(int i = 0 ; i< post->NumComponentsGet(); i++)
+    {
+      _old_samplesVec[i] = (dynamic_cast<MCPdf<SV> *>(prior->ComponentGet(i))->ListOfSamplesGet());
+    }
+    this->_new_samplesVec = this->_old_samplesVec;
     this->_newMixtureWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
     this->_sumWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
 }
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 7afdce2..2739375 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -129,6 +129,19 @@ ParticleFilter<SV,MV>::ParticleFilter(const ParticleFilter<SV,MV> & filter)
   this->_post = new MCPdf<SV>(dynamic_cast<MCPdf<SV> *>(filter._post));
 }
 
+template <typename SV, typename MV> void
+ParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+  MCPdf<SV> * mcprior = dynamic_cast<MCPdf<SV> *>(prior);
+  assert(mcprior != NULL);
+  bool ret = (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(mcprior->ListOfSamplesGet());
+  assert(ret);
+  _old_samples = (mcprior->ListOfSamplesGet());
+  _new_samples = _old_samples;
+  this->_prior = prior;
+  this->_timestep = 0;
+}
+
 template <typename SV, typename MV> void
 ParticleFilter<SV,MV>::ProposalSet(ConditionalPdf<SV,SV> * const cpdf)
 {
diff --git a/orocos_bfl/src/filter/particlefilter.h b/orocos_bfl/src/filter/particlefilter.h
index 5ee0ce0..300e414 100644
--- a/orocos_bfl/src/filter/particlefilter.h
+++ b/orocos_bfl/src/filter/particlefilter.h
@@ -295,6 +295,11 @@ namespace BFL
        */
       ParticleFilter(const ParticleFilter<StateVar,MeasVar> & filt);
 
+      /// Reset Filter
+      /** @param prior the new prior, should be a MCPdf<StateVar>
+       */
+      virtual void Reset(Pdf<StateVar> * prior);
+
       /// Set the proposal density
       /** @param cpdf the new proposal density.  The order of the
 	  conditional arguments is fixed and should be: x (state), u
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index 32bad3f..3abde18 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -55,10 +55,13 @@ namespace BFL
     */
   }
 
-  FilterPropDens::~FilterPropDens(){}
+  FilterPropDens::~FilterPropDens()
+  {
+    delete _TmpPrior;
+  }
 
   // BUG Copy constructor not implemented yet
-  FilterPropDens::FilterPropDens(const FilterPropDens & fpd){}
+  FilterPropDens::FilterPropDens(const FilterPropDens & fpd) : _TmpPrior(NULL) {}
 
   void
   FilterPropDens::SystemModelSet(AnalyticSystemModelGaussianUncertainty * SysModel)
diff --git a/orocos_bfl/src/smoother/backwardfilter.cpp b/orocos_bfl/src/smoother/backwardfilter.cpp
index be83998..8694a13 100644
--- a/orocos_bfl/src/smoother/backwardfilter.cpp
+++ b/orocos_bfl/src/smoother/backwardfilter.cpp
@@ -37,8 +37,12 @@ BackwardFilter<SVar>::BackwardFilter(const BackwardFilter<SVar>& backwardfilter)
 template<typename SVar>  void
 BackwardFilter<SVar>::Reset(Pdf<SVar> * prior)
 {
+  // the posterior is owned by the filter: work on a copy of the prior
+  Pdf<SVar> * post = prior->Clone();
+  delete _post;
   _prior = prior;
-  _post = prior;
+  _post = post;
+  _timestep = 0;
 }
 
 template<typename SVar> int
-- 
2.43.0


From 1f251feb2533ac2baa91bb1df453591fc94efd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:23 +0000
Subject: [PATCH 08/32] fix: particle smoother uses one correction factor per
 smoothed particle

The correction factors were stored per filtered particle, the transition
probabilities were read transposed (out of bounds when the particle counts
differ) and the weight sum started uninitialised.
---
 orocos_bfl/src/smoother/particlesmoother.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index 43d9b43..836e64b 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -79,10 +79,10 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
                 prob(i,j) = sysmodel->ProbabilityGet(x_smo,x_fil);
               }
               gamma_loc = gamma_loc + _fs_it->WeightGet() * prob(i,j);
-              // calculate correction factors
-              gamma[j-1] = gamma_loc;
               j++;
              }
+      // correction factor of this smoothed particle
+      gamma[i-1] = gamma_loc;
       i++;
       }
       //cout << "probabilities " << prob << endl;
@@ -90,7 +90,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
       _new_samples = _filtered_samples;
       // new weights for filtered samples
       i = 1 ;
-      double tot_weight; // sum of weights needed to normalize
+      double tot_weight = 0.0; // sum of weights needed to normalize
       vector<double> weight (_new_samples.size()); // vector of weights of particles
       for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
         {
@@ -99,7 +99,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
           for (_os_it = _old_samples.begin(); _os_it !=_old_samples.end() ; _os_it++)
           {
               if (gamma[j-1]!=0){
-                  delta = delta + _os_it->WeightGet() * prob(i,j) / gamma[j-1];
+                  delta = delta + _os_it->WeightGet() * prob(j,i) / gamma[j-1];
               }
               else{}
               j++;
-- 
2.43.0


From ff374c9aa05f7a093c41969bfbb17b7ac564bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:00 +0000
Subject: [PATCH 09/32] fix: RTS smoother linearises the system model at the
 filtered estimate

The Jacobian and the noise covariance of the step from k to k+1 were
evaluated at the smoothed estimate of k+1.
---
 orocos_bfl/src/smoother/rauchtungstriebel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 2142169..067984a 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -52,8 +52,8 @@ namespace BFL
   {
     _x = _post->ExpectedValueGet();
     _xf = filtered_post->ExpectedValueGet();
-    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_x);
-    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_x);
+    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_xf);
+    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_xf);
 
     _Ppred = _F * (Matrix)filtered_post->CovarianceGet() * _F.transpose() + (Matrix)_Q;
     _Pxx = (Matrix)filtered_post->CovarianceGet() * _F.transpose();
-- 
2.43.0


From e61e005689d1b74e15b22877e699500c34c2e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:27 +0000
Subject: [PATCH 10/32] fix: EKF particle filter weights each sample with its
 own proposal

The members shadowing those of the base class left the weight update with
the initial samples as predecessors, and the proposal density was evaluated
with the covariance of the last sample only.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 47 ++++++++++++++++++++++
 orocos_bfl/src/filter/EKparticlefilter.h   | 15 ++++++-
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 28b3e40..5512d35 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -51,6 +51,17 @@ namespace BFL
     delete _proposal;
   }
 
+  void
+  EKParticleFilter::Reset(Pdf<CV> * prior)
+  {
+    ParticleFilter<CV,CV>::Reset(prior);
+    unsigned int num_samples = (dynamic_cast<MCPdf<CV> *>(prior))->NumSamplesGet();
+    _sampleCov.assign(num_samples,prior->CovarianceGet());
+    _tmpCov = _sampleCov;
+    _result_samples.assign(num_samples,WeightedSample<ColumnVector>(_dimension));
+    _unif_samples.assign(num_samples,0.0);
+  }
+
   // KG: 20040702:  This method will be exactly the same for.  Extra
   // class between?
   bool
@@ -123,6 +134,7 @@ namespace BFL
     _old_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
 
     _ns_it = _new_samples.begin();
+    _proposalCov = _sampleCov;
     _cov_it = _sampleCov.begin();
 
     for ( _os_it=_old_samples.begin(); _os_it != _old_samples.end() ; _os_it++)
@@ -171,4 +183,39 @@ namespace BFL
     return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
 
   }
+
+  bool
+  EKParticleFilter::UpdateWeightsInternal(SystemModel<CV>* const sysmodel,
+					  const CV& u,
+					  MeasModel<CV,CV>* const measmodel,
+					  const CV& z,
+					  const CV& s)
+  {
+    _new_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
+    _os_it = _old_samples.begin();
+    _cov_it = _proposalCov.begin();
+
+    for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
+      {
+	const CV& x_new = _ns_it->ValueGet();
+	const CV& x_old = _os_it->ValueGet();
+
+	// The proposal this sample was drawn from (inputs, measurement and
+	// sensor parameters are still set)
+	dynamic_cast<FilterProposalDensity *>(_proposal)->SampleCovSet(*_cov_it);
+	_proposal->ConditionalArgumentSet(0,x_old);
+	Probability proposal = _proposal->ProbabilityGet(x_new);
+
+	Probability weightfactor = measmodel->SystemWithoutSensorParams() ?
+	  measmodel->ProbabilityGet(z,x_new) : measmodel->ProbabilityGet(z,x_new,s);
+	if (proposal != 0)
+	  weightfactor = weightfactor * ( (sysmodel->SystemWithoutInputs() ?
+					   sysmodel->ProbabilityGet(x_new,x_old) : sysmodel->ProbabilityGet(x_new,x_old,u)) / proposal );
+	else weightfactor = 0;
+	_ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
+
+	_os_it++; _cov_it++;
+      }
+    return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
+  }
 }
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index bf8b364..8042fb0 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -43,10 +43,12 @@ namespace BFL
       std::vector<SymmetricMatrix> _tmpCov;
       std::vector<SymmetricMatrix>::iterator _tmpCovit;
 
+      /// Sample Covariances the last proposal was conditioned on
+      std::vector<SymmetricMatrix> _proposalCov;
+
       // helper variables for resampleing to prevent memory allocation on the heap
       const int _dimension;
       const int _num_samples;
-      std::vector<WeightedSample<ColumnVector> > _old_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _oit;
       std::vector<WeightedSample<ColumnVector> > _result_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _rit;
@@ -54,7 +56,6 @@ namespace BFL
       std::vector<double> _CumPDF;
       std::vector<double>::const_iterator _CumPDFit;
       ColumnVector _x_old;
-      Sample<ColumnVector> _sample;
 
       virtual bool UpdateInternal(SystemModel<ColumnVector>* const sysmodel,
 				  const ColumnVector& u,
@@ -70,6 +71,13 @@ namespace BFL
 					const ColumnVector & z,
 					const ColumnVector & s);
 
+      /// Weights are those of the proposal each sample was drawn from
+      virtual bool UpdateWeightsInternal(SystemModel<ColumnVector> * const sysmodel,
+					 const ColumnVector & u,
+					 MeasurementModel<ColumnVector,ColumnVector> * const measmodel,
+					 const ColumnVector & z,
+					 const ColumnVector & s);
+
       /// Resample also redefined for the same reasons...
       virtual bool Resample();
 
@@ -91,6 +99,9 @@ namespace BFL
 
       /// Destructor
       virtual ~EKParticleFilter();
+
+      // redefined: the sample covariances restart as well
+      virtual void Reset(Pdf<ColumnVector> * prior);
     };
 
 } // End namespace BFL
-- 
2.43.0


From aa56cabff88639cca51c102021d83c1c8e04644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:21 +0000
Subject: [PATCH 11/32] fix: editing one probability or component keeps
 densities normalised in the corner cases

One-state densities aborted, a probability next to 1 made the rest lose
its normalisation, deleting the component that carries all weight left
zero weights behind, and an empty mixture could not be copied.
---
 orocos_bfl/src/pdf/discretepdf.cpp | 12 ++++++++----
 orocos_bfl/src/pdf/mixture.h       | 26 +++++++++++++++++++-------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index e74b711..1d1a18c 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -91,12 +91,16 @@ namespace BFL
     // renormalize other probabilities such that sum of probabilities will be
     // one after the probability of state is set to a
     // This should keep the probabilities normalized
-    Probability old_prob_state = ProbabilityGet(state);
-    if (old_prob_state!=1) {
-        double normalization_factor = (1-a)/(1-old_prob_state);
+    if (NumStatesGet() == 1) return (a == 1.0);
+    double sum_others = 0.0;
+    for (int i=0; i<NumStatesGet();i++)
+    {
+        if (i != state) sum_others += (*_Values_p)[i];
+    }
+    if (sum_others > 0) {
         for (int i=0; i<NumStatesGet();i++)
         {
-            (*_Values_p)[i] = (Probability)( (double)( (*_Values_p)[i] )* normalization_factor);
+            if (i != state) (*_Values_p)[i] = (Probability)( (double)( (*_Values_p)[i] ) / sum_others * (1-a));
         }
     }
     else{
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index ceffb68..bd45b8f 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -228,9 +228,9 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
   {
     //create pointer to vector of component weights
     _componentWeights = new vector<Probability>(this->NumComponentsGet());
-    (*_componentWeights) = my_mixture.WeightsGet();
+    (*_componentWeights) = *my_mixture._componentWeights;
     _cumWeights.insert(_cumWeights.begin(),NumComponentsGet()+1,0.0);
-    CumWeightsUpdate();
+    if (NumComponentsGet() > 0) CumWeightsUpdate();
 
     //create pointer to vector of pointers to weights
     _componentPdfs = new vector< Pdf<T>* >(NumComponentsGet());
@@ -428,19 +428,24 @@ template<typename T>
 
     if (NumComponentsGet() == 1)
     {
-        (*_componentWeights)[0] = weight;
+        // the only component always has weight 1
+        (*_componentWeights)[0] = 1.0;
+        return CumWeightsUpdate() && (double)weight == 1.0;
     }
     else
     {
         // renormalize other weights such that sum of probabilities will be
         // one after the weight of the component is set to weight
         // This should keep the probabilities normalized
-        Probability old_weight = WeightGet(componentNumber);
-        if ((double)old_weight!=1.0) {
-            double normalization_factor = (1-weight)/(1-old_weight);
+        double sum_others = 0.0;
+        for (int i=0; i<NumComponentsGet();i++)
+        {
+            if (i != componentNumber) sum_others += (*_componentWeights)[i];
+        }
+        if (sum_others > 0) {
             for (int i=0; i<NumComponentsGet();i++)
             {
-                (*_componentWeights)[i] = (Probability)( (double)( (*_componentWeights)[i] )* normalization_factor);
+                if (i != componentNumber) (*_componentWeights)[i] = (Probability)( (double)( (*_componentWeights)[i] ) / sum_others * (1-weight));
             }
         }
         else{
@@ -521,6 +526,13 @@ template<typename T>
 
     TestNotInit();
     assert((int)componentNumber >= 0 && componentNumber < NumComponentsGet());
+    double SumOfOthers = 0.0;
+    for ( unsigned int i = 0; i < NumComponentsGet() ; i++)
+        if (i != componentNumber) SumOfOthers += (*_componentWeights)[i];
+    if (NumComponentsGet() > 1 && !(SumOfOthers > 0)){
+      cerr << "Mixture::DeleteComponent(): refused, it carries all the weight" << endl;
+      return false;
+    }
     _numComponents--;
     Pdf<T>* pointer = (*_componentPdfs)[componentNumber];
     delete pointer;
-- 
2.43.0


From be36c4b16445cfff4439b3c7361181c4ff91b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:21 +0000
Subject: [PATCH 12/32] fix: a uniform density dimensioned by UniformSet can be
 sampled

---
 orocos_bfl/src/pdf/uniform.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/uniform.cpp b/orocos_bfl/src/pdf/uniform.cpp
index 914cd7d..7fd1ce5 100644
--- a/orocos_bfl/src/pdf/uniform.cpp
+++ b/orocos_bfl/src/pdf/uniform.cpp
@@ -136,7 +136,11 @@ namespace BFL
     {
         _Height = _Height / width(i);
     }
-    if (this->DimensionGet() == 0) this->DimensionSet(center.rows());
+    if (this->DimensionGet() == 0)
+    {
+        this->DimensionSet(center.rows());
+        _samples.resize(center.rows());
+    }
     assert(this->DimensionGet() == center.rows());
   }
 
-- 
2.43.0


From 374e1418de229286fdcff909d2b06b8796248d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:42 +0000
Subject: [PATCH 13/32] fix: discrete and mixture densities own their storage
 through copies, assignment and destruction

Assigning shared the storage of the two objects and freed it twice;
conditional discrete densities never freed their tables.
---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 10 ++++------
 orocos_bfl/src/pdf/discreteconditionalpdf.h   |  6 +++---
 orocos_bfl/src/pdf/discretepdf.cpp            | 10 ++++++++++
 orocos_bfl/src/pdf/discretepdf.h              |  3 +++
 orocos_bfl/src/pdf/mixture.h                  | 15 +++++++++++++++
 5 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index e65c09f..e826e39 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -33,7 +33,7 @@ namespace BFL
     , _probs(num_states)
     , _valuelist(num_states+1)
   {
-    _cond_arg_dims_p = new int[num_conditional_arguments];
+    _cond_arg_dims_p.resize(num_conditional_arguments);
     int total_dim = 1;
     for ( int arg = 0 ; arg < num_conditional_arguments; arg++)
       {
@@ -45,7 +45,7 @@ namespace BFL
     cout << "DCPdf Constructor: total dimension allocated: "
 	 << _total_dimension << endl;
 #endif // __CONSTRUCTOR__
-    _probability_p = new double[_total_dimension];
+    _probability_p.resize(_total_dimension);
   }
 
   DiscreteConditionalPdf::~DiscreteConditionalPdf()
@@ -53,8 +53,6 @@ namespace BFL
 #ifdef __DCPDFDEBUG__
     cout << "DCPdf Destructor:" << endl;
 #endif // __DCPDFDEBUG__
-    //delete _probability_p;
-    //delete _cond_arg_dims_p;
   }
 
 
@@ -64,7 +62,7 @@ namespace BFL
     , _probs(pdf.NumStatesGet())
     , _valuelist(pdf.NumStatesGet()+1)
   {
-    _cond_arg_dims_p = new int[pdf.NumConditionalArgumentsGet()];
+    _cond_arg_dims_p.resize(pdf.NumConditionalArgumentsGet());
     int total_dim = 1;
     for ( unsigned int arg = 0 ; arg < NumConditionalArgumentsGet(); arg++)
       {
@@ -73,7 +71,7 @@ namespace BFL
       }
     total_dim *= _num_states;
     _total_dimension = total_dim;
-    _probability_p = new double[total_dim];
+    _probability_p.resize(total_dim);
     for (int prob = 0 ; prob < total_dim ; prob++)
       {
 	_probability_p[prob] = pdf._probability_p[prob];
diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.h b/orocos_bfl/src/pdf/discreteconditionalpdf.h
index 3f743d0..c176b0e 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.h
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.h
@@ -56,13 +56,13 @@ namespace BFL
       /// number of discrete states
       unsigned int _num_states;
 
-      /// Pointer to the probability values
+      /// The probability values
       /** For now we implement this using a simple row of doubles, this should
 	  probably become a tensor in the future
       */
-      double * _probability_p;
+      mutable std::vector<double> _probability_p;
       /// "Possible discrete states" of all the conditional arguments
-      int * _cond_arg_dims_p;
+      std::vector<int> _cond_arg_dims_p;
 
       /// Total dimension of the likelihoodtable
       int _total_dimension;
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 1d1a18c..5313916 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -56,6 +56,16 @@ namespace BFL
 #endif // __CONSTRUCTOR__
   }
 
+  DiscretePdf & DiscretePdf::operator= (const DiscretePdf & my_dpdf)
+  {
+    DiscretePdf copy(my_dpdf);
+    Pdf<int>::operator=(copy);
+    std::swap(_num_states,copy._num_states);
+    std::swap(_Values_p,copy._Values_p);
+    _CumPDF.swap(copy._CumPDF);
+    return *this;
+  }
+
   DiscretePdf::~DiscretePdf()
   {
 #ifdef __CONSTRUCTOR__
diff --git a/orocos_bfl/src/pdf/discretepdf.h b/orocos_bfl/src/pdf/discretepdf.h
index 92d55c9..528d1a3 100644
--- a/orocos_bfl/src/pdf/discretepdf.h
+++ b/orocos_bfl/src/pdf/discretepdf.h
@@ -58,6 +58,9 @@ namespace BFL
       /// Copy Constructor
       DiscretePdf(const DiscretePdf &);
 
+      /// Assignment
+      DiscretePdf & operator= (const DiscretePdf &);
+
       /// Destructor
       virtual ~DiscretePdf();
 
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index bd45b8f..47c2cc2 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -87,6 +87,9 @@ namespace BFL
 
       Mixture(const Mixture & my_mixture);
 
+      /// Assignment
+      Mixture & operator= (const Mixture & my_mixture);
+
       /// Destructor
       virtual ~Mixture();
 
@@ -243,6 +246,18 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
 #endif // __CONSTRUCTOR__
   }
 
+template<typename T>
+  Mixture<T> & Mixture<T>::operator= (const Mixture & my_mixture)
+  {
+    Mixture copy(my_mixture);
+    Pdf<T>::operator=(copy);
+    std::swap(_numComponents,copy._numComponents);
+    std::swap(_componentWeights,copy._componentWeights);
+    std::swap(_componentPdfs,copy._componentPdfs);
+    _cumWeights.swap(copy._cumWeights);
+    return *this;
+  }
+
 template<typename T>
   Mixture<T>::~Mixture()
   {
-- 
2.43.0


From 8a264e2b1a3029aae46e862c65623f3f3dadb832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:47 +0000
Subject: [PATCH 14/32] fix: conditional Gaussian resizes its work variables
 with its dimension

The EKF proposal density is created without models and dimensioned later; its
sampling buffers stayed empty, so every draw wrote out of bounds.
---
 orocos_bfl/src/pdf/conditionalgaussian.cpp | 11 +++++++++++
 orocos_bfl/src/pdf/conditionalgaussian.h   |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/orocos_bfl/src/pdf/conditionalgaussian.cpp b/orocos_bfl/src/pdf/conditionalgaussian.cpp
index e1d9631..1d86da7 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.cpp
+++ b/orocos_bfl/src/pdf/conditionalgaussian.cpp
@@ -44,6 +44,17 @@ namespace BFL
       return new ConditionalGaussian(*this);
   }
 
+  void
+  ConditionalGaussian::DimensionSet(unsigned int dim)
+  {
+    _diff.resize(dim);
+    _Mu.resize(dim);
+    _Low_triangle.resize(dim,dim);
+    _samples.resize(dim);
+    _SampleValue.resize(dim);
+    ConditionalPdf<ColumnVector,ColumnVector>::DimensionSet(dim);
+  }
+
   Probability
   ConditionalGaussian::ProbabilityGet(const ColumnVector& input) const
   {
diff --git a/orocos_bfl/src/pdf/conditionalgaussian.h b/orocos_bfl/src/pdf/conditionalgaussian.h
index d1d2b52..b69862c 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.h
+++ b/orocos_bfl/src/pdf/conditionalgaussian.h
@@ -56,6 +56,9 @@ namespace BFL
       ///Clone function
       virtual ConditionalGaussian* Clone() const;
 
+      // Redefined: the work variables follow the dimension
+      virtual void DimensionSet(unsigned int dim);
+
       // implemented virtuals!
       virtual Probability ProbabilityGet(const MatrixWrapper::ColumnVector& input) const;
       virtual bool SampleFrom (Sample<MatrixWrapper::ColumnVector>& sample, const SampleMthd method=SampleMthd::DEFAULT, void * args=NULL) const;
-- 
2.43.0


From a52ad6e797c4ef9fcea85a46d7ad7ba419d82ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:02 +0000
Subject: [PATCH 15/32] fix: a failed allocation leaks nothing and leaves
 objects usable

Constructors that own raw memory allocate it last or release it when a later
step throws; counters and flags change only after the storage they describe.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp    |  2 +-
 orocos_bfl/src/filter/histogramfilter.cpp     |  4 +-
 .../src/filter/mixtureParticleFilter.cpp      |  8 +--
 orocos_bfl/src/filter/particlefilter.cpp      | 18 ++++--
 orocos_bfl/src/pdf/conditionalpdf.h           |  2 +-
 orocos_bfl/src/pdf/discretepdf.cpp            |  5 +-
 orocos_bfl/src/pdf/filterproposaldensity.cpp  |  2 +-
 orocos_bfl/src/pdf/gaussian.cpp               | 14 ++---
 orocos_bfl/src/pdf/mcpdf.h                    |  1 +
 orocos_bfl/src/pdf/mixture.h                  | 60 +++++++++++++++++--
 orocos_bfl/src/smoother/particlesmoother.cpp  | 12 +++-
 .../src/wrappers/matrix/matrix_BOOST.cpp      |  2 +-
 12 files changed, 94 insertions(+), 36 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 5512d35..798fb1e 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -35,7 +35,6 @@ namespace BFL
     , _num_samples(prior->NumSamplesGet())
   {
     this->_proposal_depends_on_meas = true;
-    _proposal = new EKFProposalDensity(NULL,NULL);
 
     _sampleCov.assign(_num_samples,prior->CovarianceGet());
     _tmpCov.assign(_num_samples,prior->CovarianceGet());
@@ -45,6 +44,7 @@ namespace BFL
     _CumPDF.assign(_num_samples,0.0);
     _x_old.resize(_num_samples);
     _sample.DimensionSet(_dimension);
+    _proposal = new EKFProposalDensity(NULL,NULL); // last: nothing can fail after it
   }
 
   EKParticleFilter::~EKParticleFilter(){
diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index 1710fd7..99ae0c1 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -24,11 +24,11 @@
   HistogramFilter<MeasVar>::HistogramFilter(DiscretePdf * prior)
     : Filter<int,MeasVar>(prior)
   {
-    // create posterior density
-    this->_post = new DiscretePdf(*prior);
     // Initialise lists of probabilities
     _old_prob = (prior->ProbabilitiesGet());
     _new_prob = _old_prob;
+    // create posterior density
+    this->_post = new DiscretePdf(*prior);
   }
 
   template <typename MeasVar>
diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index eb7b6b6..e616812 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -48,17 +48,15 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(Mixture<SV> * prior,
      To be more clean, this should be done in the filter base class,
      but this is impossible because of the pure virtuals...
   */
-  // Post is equal to prior at timetep 1
-  this->_post = prior->Clone();
-
   // Initialise vector of lists of samples
-  for(int i = 0 ; i< dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet(); i++)
+  for(int i = 0 ; i< prior->NumComponentsGet(); i++)
   {
     _old_samplesVec[i] = (dynamic_cast<MCPdf<SV> *>(prior->ComponentGet(i))->ListOfSamplesGet());
   }
   _new_samplesVec = _old_samplesVec;
 
-
+  // Post is equal to prior at timetep 1
+  this->_post = prior->Clone();
 
   // You have to choose for dynamic resampling by specifying a threshold != 0 OR give me a fixed resample period != 0
   assert(!(resampleperiod == 0 && resamplethreshold == 0));
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 2739375..7f3431c 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -37,6 +37,10 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   , _resampleScheme(resamplescheme)
   , _created_post(true)
 {
+  // Initialise lists of samples
+  _old_samples = (prior->ListOfSamplesGet());
+  _new_samples = _old_samples;
+
   /* Initialize Post, at time = 0, post = prior
      To be more clean, this should be done in the filter base class,
      but this is impossible because of the pure virtuals...
@@ -46,14 +50,16 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   /* Note: Dirty cast should be avoided by not demanding an MCPdf as
      prior and just sample from the prior instead  :-(
   */
-  bool ret = (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(prior->ListOfSamplesGet());
+  bool ret;
+  try {
+    ret = (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(prior->ListOfSamplesGet());
+  }
+  catch (...) {
+    delete this->_post; // the destructor will not run
+    throw;
+  }
   assert(ret);
 
-  // Initialise lists of samples
-  _old_samples = (prior->ListOfSamplesGet());
-  _new_samples = _old_samples;
-
-
   // You have to choose for dynamic resampling by specifying a threshold != 0 OR give me a fixed resample period != 0
   assert(!(resampleperiod == 0 && resamplethreshold == 0));
   assert(!(resampleperiod != 0 && resamplethreshold != 0));
diff --git a/orocos_bfl/src/pdf/conditionalpdf.h b/orocos_bfl/src/pdf/conditionalpdf.h
index 4da79e5..b5fbb67 100644
--- a/orocos_bfl/src/pdf/conditionalpdf.h
+++ b/orocos_bfl/src/pdf/conditionalpdf.h
@@ -142,8 +142,8 @@ namespace BFL
     {
       if (numconditionalarguments != _NumConditionalArguments)
 	{
+	  this->_ConditionalArguments.resize(numconditionalarguments);
 	  _NumConditionalArguments = numconditionalarguments;
-	  this->_ConditionalArguments.resize(_NumConditionalArguments);
 	}
     }
 
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 5313916..10c237c 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -32,12 +32,12 @@ namespace BFL
         ,_num_states(num_states)
   {
     //discrete pdf has dimension 1
+    _CumPDF.insert(_CumPDF.begin(),num_states+1,0.0);
     _Values_p = new vector<Probability>(num_states);
     for (int i=0; i<NumStatesGet();i++)
     {
         (*_Values_p)[i] = (Probability)(1.0/NumStatesGet());
     }
-    _CumPDF.insert(_CumPDF.begin(),num_states+1,0.0);
     CumPDFUpdate();
 #ifdef __CONSTRUCTOR__
     cout << "DiscretePdf constructor\n";
@@ -47,9 +47,8 @@ namespace BFL
   DiscretePdf::DiscretePdf(const DiscretePdf & my_dpdf):Pdf<int>(my_dpdf)
         ,_num_states(my_dpdf.NumStatesGet())
   {
-    _Values_p = new vector<Probability>(this->NumStatesGet());
-    (*_Values_p) = my_dpdf.ProbabilitiesGet();
     _CumPDF.insert(_CumPDF.begin(),NumStatesGet()+1,0.0);
+    _Values_p = new vector<Probability>(*my_dpdf._Values_p);
     CumPDFUpdate();
 #ifdef __CONSTRUCTOR__
     cout << "DiscretePdf copy constructor\n";
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index 3abde18..f3f751e 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -33,13 +33,13 @@ namespace BFL
   {
     if (SysModel != NULL)
       {
-	_TmpPrior = new Gaussian(SysModel->StateSizeGet());
 	_sample_cov.resize(SysModel->StateSizeGet());
 
 	this->DimensionSet(SysModel->StateSizeGet());
 	if (MeasModel != NULL)
 	  this->NumConditionalArgumentsSet(SysModel->SystemPdfGet()->NumConditionalArgumentsGet()
 					   + MeasModel->MeasurementPdfGet()->NumConditionalArgumentsGet());
+	_TmpPrior = new Gaussian(SysModel->StateSizeGet());
       }
     else
       {
diff --git a/orocos_bfl/src/pdf/gaussian.cpp b/orocos_bfl/src/pdf/gaussian.cpp
index 30ef5a4..d23f7c4 100644
--- a/orocos_bfl/src/pdf/gaussian.cpp
+++ b/orocos_bfl/src/pdf/gaussian.cpp
@@ -76,9 +76,9 @@ namespace BFL
   {
     // only calculate these variables if sigma has changed
     if (_Sigma_changed){
-      _Sigma_changed = false;
       _Sigma_inverse = _Sigma.inverse();
       _sqrt_pow = 1 / sqrt(pow(M_PI*2,(double)DimensionGet()) * _Sigma.determinant());
+      _Sigma_changed = false;
     }
 
     _diff = input;
@@ -201,8 +201,8 @@ namespace BFL
   void
   Gaussian::CovarianceSet (const SymmetricMatrix& cov)
   {
-    _Sigma = cov;
     _Sigma_changed = true;
+    _Sigma = cov;
     if (this->DimensionGet() == 0)
       {
 	this->DimensionSet(cov.rows());
@@ -213,12 +213,12 @@ namespace BFL
   void
   Gaussian::DimensionSet ( unsigned int dim )
   {
+    _diff.resize(dim);
+    _tempColumn.resize(dim);
+    _samples.resize(dim);
+    _sampleValue.resize(dim);
+    _Low_triangle.resize(dim,dim);
     Pdf<ColumnVector>::DimensionSet(dim);
-    _diff.resize(DimensionGet());
-    _tempColumn.resize(DimensionGet());
-    _samples.resize(DimensionGet());
-    _sampleValue.resize(DimensionGet());
-    _Low_triangle.resize(DimensionGet(),DimensionGet());
   }
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index 7f65074..48c9295 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -357,6 +357,7 @@ namespace BFL
       if (size < ns) // Add samples
 	{
 	  WeightedSample<T> ws;
+	  _CumPDF.reserve(ns+1); // both lists grow, or none
 	  _listOfSamples.insert(_listOfSamples.end(),(ns - size),ws);
 	  _CumPDF.insert(_CumPDF.end(),(ns - size),0.0);
 	}
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 47c2cc2..5626d2e 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -72,6 +72,12 @@ namespace BFL
       //requires number of components>0
       void TestNotInit() const;
 
+      /// Make room for num components
+      void ReserveComponents(unsigned int num);
+
+      /// Release all memory (used by destructor and failing constructors)
+      void Release();
+
     public:
       /// Constructor: An equal weight is set for all components
       /** @param dimension the dimension of the state space
@@ -185,13 +191,21 @@ template<typename T>
 Mixture<T>::Mixture(const unsigned int dimension):
   Pdf<T>(dimension)
   , _numComponents(0)
+  , _componentWeights(NULL)
+  , _componentPdfs(NULL)
   , _cumWeights(_numComponents+1)
   {
     //create pointer to vector of component weights
     _componentWeights = new vector<Probability>(this->NumComponentsGet());
 
     //create pointer to vector of pointers to pdfs
-    _componentPdfs = new vector< Pdf<T>* >(NumComponentsGet());
+    try {
+      _componentPdfs = new vector< Pdf<T>* >(NumComponentsGet());
+    }
+    catch (...) {
+      Release();
+      throw;
+    }
 #ifdef __CONSTRUCTOR__
     cout << "Mixture constructor\n";
 #endif // __CONSTRUCTOR__
@@ -201,7 +215,10 @@ Mixture<T>::Mixture(const unsigned int dimension):
 template<typename T> template <typename U>
 Mixture<T>::Mixture(const U &componentVector): Pdf<T>(componentVector[0]->DimensionGet() )
     , _numComponents(componentVector.size())
+    , _componentWeights(NULL)
+    , _componentPdfs(NULL)
 {
+  try {
     //create pointer to vector of component weights
     _componentWeights = new vector<Probability>(NumComponentsGet());
     for (int i=0; i<NumComponentsGet();i++)
@@ -220,6 +237,11 @@ Mixture<T>::Mixture(const U &componentVector): Pdf<T>(componentVector[0]->Dimens
         //general one?
         (*_componentPdfs)[i] = (componentVector[i])->Clone();
     }
+  }
+  catch (...) {
+    Release(); // the destructor will not run
+    throw;
+  }
 #ifdef __CONSTRUCTOR__
     cout << "Mixture constructor\n";
 #endif // __CONSTRUCTOR__
@@ -228,7 +250,10 @@ Mixture<T>::Mixture(const U &componentVector): Pdf<T>(componentVector[0]->Dimens
 template<typename T >
 Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet() )
         ,_numComponents(my_mixture.NumComponentsGet())
+        ,_componentWeights(NULL)
+        ,_componentPdfs(NULL)
   {
+   try {
     //create pointer to vector of component weights
     _componentWeights = new vector<Probability>(this->NumComponentsGet());
     (*_componentWeights) = *my_mixture._componentWeights;
@@ -241,6 +266,11 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
     {
         (*_componentPdfs)[i] = (my_mixture.ComponentGet(i))->Clone();
     }
+   }
+   catch (...) {
+    Release(); // the destructor will not run
+    throw;
+   }
 #ifdef __CONSTRUCTOR__
     cout << "Mixture copy constructor\n";
 #endif // __CONSTRUCTOR__
@@ -264,12 +294,19 @@ template<typename T>
 #ifdef __CONSTRUCTOR__
     cout << "Mixture destructor\n";
 #endif
+    Release();
+  }
+
+template<typename T>
+  void Mixture<T>::Release()
+  {
     // Release memory!
     delete _componentWeights;
-    for (int i=0; i<NumComponentsGet();i++)
-    {
+    if (_componentPdfs != NULL)
+      for (unsigned int i=0; i<_componentPdfs->size();i++)
+      {
         delete (*_componentPdfs)[i];
-    }
+      }
     delete _componentPdfs;
   }
 
@@ -491,6 +528,15 @@ template<typename T>
     return index_mostProbable;
   }
 
+template<typename T>
+  void Mixture<T>::ReserveComponents(unsigned int num)
+  {
+    // so that adding a component either succeeds or leaves the mixture as it was
+    (*_componentPdfs).reserve(num);
+    (*_componentWeights).reserve(num);
+    _cumWeights.reserve(num+1);
+  }
+
 template<typename T>
   bool Mixture<T>::AddComponent(Pdf<T>& pdf)
   {
@@ -498,8 +544,9 @@ template<typename T>
         return AddComponent(pdf, Probability(1.0));
     else
     {
-        _numComponents++;
+        ReserveComponents(NumComponentsGet()+1);
         (*_componentPdfs).push_back(pdf.Clone() );
+        _numComponents++;
 
         (*_componentWeights).push_back(Probability(0.0));
 	    _cumWeights.push_back(0.0);
@@ -518,8 +565,9 @@ template<typename T>
         return AddComponent(pdf, Probability(1.0));
     else
     {
-        _numComponents++;
+        ReserveComponents(NumComponentsGet()+1);
         (*_componentPdfs).push_back(pdf.Clone() );
+        _numComponents++;
         (*_componentWeights).push_back(Probability(0.0));
         _cumWeights.resize(NumComponentsGet()+1);
         //assert length of vectors
diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index 836e64b..4823eec 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -25,13 +25,19 @@ template <typename SV>
 ParticleSmoother<SV>::ParticleSmoother(MCPdf<SV> * prior)
   : BackwardFilter<SV>(prior)
 {
-  this->_post = new MCPdf<SV>(*prior);
-  (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(prior->ListOfSamplesGet());
-
   // Initialise lists of samples
   _old_samples = (prior->ListOfSamplesGet());
   _new_samples = _old_samples;
   _filtered_samples = _old_samples;
+
+  this->_post = new MCPdf<SV>(*prior);
+  try {
+    (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(prior->ListOfSamplesGet());
+  }
+  catch (...) {
+    delete this->_post; // the destructor will not run
+    throw;
+  }
 }
 
 
diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index dbd1d2e..55d4da2 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -302,7 +302,7 @@ MyMatrix::convertToSymmetricMatrix(MySymmetricMatrix& sym)
   // if necessairy, resize sym
   // only check cols or rows. Symmetric matrix is square.
   if ( sym.rows() != this->rows() )
-    sym = MySymmetricMatrix(this->rows());
+    sym.resize(this->rows(),false);
 
   // copy elements
   for ( unsigned int i=0; i<this->rows(); i++ )
-- 
2.43.0


From 1711e72f9301278fbb52389798f523fd920022bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:58 +0000
Subject: [PATCH 16/32] fix: filter proposal density does not touch a
 measurement model of an earlier update; MixtureParticleFilter can be reset to
 its own posterior (C13)

FilterPropDens::SystemModelSet dereferenced the measurement model of the
previous update, which the caller may have destroyed; it now remembers the
number of conditional arguments. MixtureParticleFilter::Reset read the prior
after the base class had deleted it when the prior was the filter's own
posterior.
---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp |  2 +-
 orocos_bfl/src/pdf/filterproposaldensity.cpp    | 13 ++++++++-----
 orocos_bfl/src/pdf/filterproposaldensity.h      |  1 +
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index e616812..155985b 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -161,7 +161,7 @@ MixtureParticleFilter<SV,MV>::Reset(Mixture<SV> * prior)
     this->_new_samples_unweightedVec.resize(post->NumComponentsGet());
     for(int i = 0 ; i< post->NumComponentsGet(); i++)
     {
-      _old_samplesVec[i] = (dynamic_cast<MCPdf<SV> *>(prior->ComponentGet(i))->ListOfSamplesGet());
+      _old_samplesVec[i] = (dynamic_cast<MCPdf<SV> *>(post->ComponentGet(i))->ListOfSamplesGet());
     }
     this->_new_samplesVec = this->_old_samplesVec;
     this->_newMixtureWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index f3f751e..d64cab4 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -29,7 +29,9 @@ namespace BFL
 				 AnalyticMeasurementModelGaussianUncertainty * MeasModel)
     : AnalyticConditionalGaussian(),
       _sysmodel(SysModel),
-      _measmodel(MeasModel)
+      _measmodel(MeasModel),
+      _num_sys_args(SysModel == NULL ? 0 : SysModel->SystemPdfGet()->NumConditionalArgumentsGet()),
+      _num_meas_args(MeasModel == NULL ? 0 : MeasModel->MeasurementPdfGet()->NumConditionalArgumentsGet())
   {
     if (SysModel != NULL)
       {
@@ -74,9 +76,10 @@ namespace BFL
 	_sample_cov.resize(SysModel->StateSizeGet());
       }
     this->DimensionSet(SysModel->StateSizeGet());
+    // the measurement model of an earlier update may be gone: do not use it
+    _num_sys_args = SysModel->SystemPdfGet()->NumConditionalArgumentsGet();
     if (_measmodel != NULL)
-      this->NumConditionalArgumentsSet(SysModel->SystemPdfGet()->NumConditionalArgumentsGet()
-				       + _measmodel->MeasurementPdfGet()->NumConditionalArgumentsGet());
+      this->NumConditionalArgumentsSet(_num_sys_args + _num_meas_args);
     _sysmodel = SysModel;
   }
 
@@ -85,9 +88,9 @@ namespace BFL
   FilterPropDens::MeasurementModelSet(AnalyticMeasurementModelGaussianUncertainty * MeasModel)
   {
     assert ( MeasModel != NULL );
+    _num_meas_args = MeasModel->MeasurementPdfGet()->NumConditionalArgumentsGet();
     if (_sysmodel != NULL)
-      this->NumConditionalArgumentsSet(_sysmodel->SystemPdfGet()->NumConditionalArgumentsGet()
-				       + MeasModel->MeasurementPdfGet()->NumConditionalArgumentsGet());
+      this->NumConditionalArgumentsSet(_num_sys_args + _num_meas_args);
     _measmodel = MeasModel;
   }
 
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.h b/orocos_bfl/src/pdf/filterproposaldensity.h
index d5b10e8..b5e8cd3 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.h
+++ b/orocos_bfl/src/pdf/filterproposaldensity.h
@@ -83,6 +83,7 @@ namespace BFL
 
       AnalyticSystemModelGaussianUncertainty * _sysmodel;
       AnalyticMeasurementModelGaussianUncertainty * _measmodel;
+      unsigned int _num_sys_args, _num_meas_args;
 
       MatrixWrapper::SymmetricMatrix _sample_cov;
 
-- 
2.43.0


From da160a91307102d1a470aaade5f5d5a49772abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:49 +0000
Subject: [PATCH 17/32] fix: EKParticleFilter resampling yields equal weights;
 reset to its own posterior is safe (C16, C13)

Resample copied the particles together with their old weights, so that after
resampling a heavy particle was both duplicated and still heavy. Reset used
the prior after the base class had deleted it when the prior was the filter's
own posterior.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 798fb1e..c1167ae 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -55,8 +55,9 @@ namespace BFL
   EKParticleFilter::Reset(Pdf<CV> * prior)
   {
     ParticleFilter<CV,CV>::Reset(prior);
-    unsigned int num_samples = (dynamic_cast<MCPdf<CV> *>(prior))->NumSamplesGet();
-    _sampleCov.assign(num_samples,prior->CovarianceGet());
+    // prior may have been our own posterior: do not use it any more
+    unsigned int num_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->NumSamplesGet();
+    _sampleCov.assign(num_samples,this->_post->CovarianceGet());
     _tmpCov = _sampleCov;
     _result_samples.assign(num_samples,WeightedSample<ColumnVector>(_dimension));
     _unif_samples.assign(num_samples,0.0);
@@ -113,6 +114,7 @@ namespace BFL
 	  }
 	_oit--; _cov_it--;
 	*(_rit) = *(_oit);
+	_rit->WeightSet(1.0/numsamples);
     *_tmpCovit = *_cov_it;
 	_oit++; _cov_it++;
 
-- 
2.43.0


From 8eaa6ee8026560f0113363f3ad3cfa0796fae7e7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:21 +0000
Subject: [PATCH 18/32] fix: square-root filter: transposed square roots gave
 wrong gains and covariances

cholesky_semidefinite returns a lower triangular factor L with L L' = P.
Transposing it is wrong: the filter needs factors with JP JP' = P,
Sr Sr' = S and R_vf R_vf' = R.
---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index ade6dcd..b64a84b 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -50,7 +50,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
    // cout<<"post_covar\n"<<_post->CovarianceGet()<<endl;
 
     ((_post->CovarianceGet()).cholesky_semidefinite(JP));
-    JP = JP.transpose();
     // cout<<"JP3\n"<<JP<<endl;
 
   }
@@ -108,7 +107,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
          else
          {
                      R_i.cholesky_semidefinite(R_vf);
-                     R_vf = R_vf.transpose();
          }
 
 	// numerical limitations
@@ -195,7 +193,6 @@ void
 	S_temp1.convertToSymmetricMatrix(S_temp);
 
 	S_temp.cholesky_semidefinite(Sr);
-	Sr  = Sr.transpose();
 
 	invS = Sr.inverse();
 	K_i  = JP*(JP.transpose())*(H_i.transpose())*(invS.transpose())*invS;
-- 
2.43.0


From 01ad2c338854b178e1eb1d221b2553e854c7f482 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:33:01 +0000
Subject: [PATCH 19/32] fix: square-root filter: Reset, PriorSet and
 SRCovarianceSet left square root and covariance out of step

---
 .../src/filter/SRiteratedextendedkalmanfilter.cpp  | 14 ++++++++++++++
 .../src/filter/SRiteratedextendedkalmanfilter.h    |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index b64a84b..fb60dbb 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -35,6 +35,13 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
 
   SRIteratedExtendedKalmanFilter::~SRIteratedExtendedKalmanFilter(){}
 
+  void
+  SRIteratedExtendedKalmanFilter::Reset(Pdf<MatrixWrapper::ColumnVector>* prior)
+  {
+    KalmanFilter::Reset(prior);
+    (_post->CovarianceGet()).cholesky_semidefinite(JP);
+  }
+
   void
   SRIteratedExtendedKalmanFilter::SysUpdate(SystemModel<MatrixWrapper::ColumnVector>* const sysmodel,const MatrixWrapper::ColumnVector& u)
   {
@@ -156,12 +163,19 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
  void SRIteratedExtendedKalmanFilter::SRCovarianceSet(Matrix JP_new)
  {
 		 JP=JP_new;
+		 // keep the covariance of the estimate in step
+		 SymmetricMatrix P(JP.rows());
+		 Matrix JP_JPt = JP*(JP.transpose());
+		 JP_JPt.convertToSymmetricMatrix(P);
+		 PostSigmaSet( P );
  }
 
  void SRIteratedExtendedKalmanFilter::PriorSet(ColumnVector& X_prior,SymmetricMatrix& P_prior)
  {
  	PostMuSet( X_prior );
 	PostSigmaSet( P_prior );
+	// keep the square root in step
+	P_prior.cholesky_semidefinite(JP);
  }
 void
   SRIteratedExtendedKalmanFilter::CalculateMeasUpdate(ColumnVector z, ColumnVector Z, Matrix H, SymmetricMatrix R)
diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
index 0016778..6754049 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
@@ -62,6 +62,8 @@ namespace BFL
 
       /// Destructor
       virtual ~SRIteratedExtendedKalmanFilter();
+      /// Reset the filter: the square root becomes that of the new prior
+      virtual void Reset(Pdf<MatrixWrapper::ColumnVector>* prior);
       /// Perform a system update with the current measurement model ans system model using an input u
       virtual void SysUpdate(SystemModel<MatrixWrapper::ColumnVector>* const sysmodel,
 			     const MatrixWrapper::ColumnVector& u);
-- 
2.43.0


From 509bc20a102d10f2c5b691dfc6488f083dfae92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:16 +0000
Subject: [PATCH 20/32] fix: variance of a sample-based density over unsigned
 integers overflowed (C04, C09)

---
 orocos_bfl/src/pdf/mcpdf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/pdf/mcpdf.cpp b/orocos_bfl/src/pdf/mcpdf.cpp
index a6e4891..554a483 100644
--- a/orocos_bfl/src/pdf/mcpdf.cpp
+++ b/orocos_bfl/src/pdf/mcpdf.cpp
@@ -130,16 +130,15 @@ namespace BFL
   SymmetricMatrix MCPdf<unsigned int>::CovarianceGet (  ) const
   {
     unsigned int mean = this->ExpectedValueGet();
-    unsigned int diff;
-    double diffsum, current_weight;
+    double diff, diffsum, current_weight;
     _los = _listOfSamples;
     diffsum = 0.0;
     // Actual calculation
     for (_it_los = _los.begin(); _it_los != _los.end(); _it_los++)
       {
 	current_weight = _it_los->WeightGet();
-	diff = (_it_los->ValueGet() - mean);
-	diffsum += (((double)(diff * diff)) * current_weight);
+	diff = ((double)_it_los->ValueGet() - (double)mean);
+	diffsum += ((diff * diff) * current_weight);
       }
 
     // Biased estimator!! (unbiased possible with weighted samples??)
-- 
2.43.0


From 88fcdf136cc511fde3ae69a103ad7fbff1f814bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:19 +0000
Subject: [PATCH 21/32] fix: symbolic models:
 FunctionGet/StateGet/InputGet/ConditionalGet cast the density to the model
 class (C22)

---
 ...analyticmeasurementmodel_gaussianuncertainty_ginac.cpp | 8 ++++----
 ...inearanalyticsystemmodel_gaussianuncertainty_ginac.cpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
index ce0af27..e856168 100644
--- a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
@@ -81,25 +81,25 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->FunctionGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *)MeasurementPdfGet())->StateGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->InputGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->InputGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::ConditionalGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->ConditionalGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->ConditionalGet();
   }
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
index bb0500f..980f771 100644
--- a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
@@ -47,19 +47,19 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->FunctionGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *)SystemPdfGet())->StateGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->InputGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->InputGet();
   }
 
 
-- 
2.43.0


From 7e816dde3da4d110e80c0a26d3509fceac8ad3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:19 +0000
Subject: [PATCH 22/32] fix: symbolic conditional density: Clone sliced it,
 copies lost the conditional arguments (C22)

---
 .../pdf/nonlinearanalyticconditionalgaussian_ginac.cpp   | 9 ++++++++-
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.h | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 4199b91..79a2e1e 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -83,7 +83,7 @@ namespace BFL
   // copy constructor
   NonLinearAnalyticConditionalGaussian_Ginac::NonLinearAnalyticConditionalGaussian_Ginac
   (const NonLinearAnalyticConditionalGaussian_Ginac& g)
-    : AnalyticConditionalGaussianAdditiveNoise( Gaussian(g.AdditiveNoiseMuGet(),g.AdditiveNoiseSigmaGet()) ,2),
+    : AnalyticConditionalGaussianAdditiveNoise(g),
       func_sym        (g.func_sym),
       cond_sym        (g.cond_sym),
       u_sym           (g.u_sym),
@@ -112,6 +112,13 @@ namespace BFL
   NonLinearAnalyticConditionalGaussian_Ginac::~NonLinearAnalyticConditionalGaussian_Ginac()
   {}
 
+  //Clone function
+  NonLinearAnalyticConditionalGaussian_Ginac*
+  NonLinearAnalyticConditionalGaussian_Ginac::Clone() const
+  {
+    return new NonLinearAnalyticConditionalGaussian_Ginac(*this);
+  }
+
 
   std::ostream& operator<< (std::ostream& os, NonLinearAnalyticConditionalGaussian_Ginac& p)
   {
diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
index 6c15bc4..1c2d077 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
@@ -82,6 +82,9 @@ namespace BFL
       /// Destructor
       virtual ~NonLinearAnalyticConditionalGaussian_Ginac();
 
+      ///Clone function
+      virtual NonLinearAnalyticConditionalGaussian_Ginac* Clone() const;
+
       /// output stream for measurement model
       friend std::ostream& operator<< (std::ostream& os, NonLinearAnalyticConditionalGaussian_Ginac& p);
 
-- 
2.43.0


From c2f019561952a10bde4f8fa7aa773c92b6de0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:19 +0000
Subject: [PATCH 23/32] fix: symbolic conditional density with noise on
 parameters had the dimension of its noise (C22)

---
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 79a2e1e..7874855 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -32,7 +32,7 @@ namespace BFL
    const vector<GiNaC::symbol>& x,
    const Gaussian& additiveNoise,
    const vector<GiNaC::symbol>& cond )
-    :AnalyticConditionalGaussianAdditiveNoise(additiveNoise,3),
+    :AnalyticConditionalGaussianAdditiveNoise(additiveNoise,2),
      func_sym        (func),
      cond_sym        (cond),
      u_sym           (u),
@@ -48,6 +48,9 @@ namespace BFL
     assert (func_sym.cols() == 1);
     assert (additiveNoise.DimensionGet() == cond_size);
 
+    // the noise is on the parameters, the density is one over the function values
+    DimensionSet(func_size);
+
     // derive func to cond
     for (unsigned int i=0; i < cond_size; i++)
       dfunc_dcond[i] = func_sym.diff(cond_sym[i]);
-- 
2.43.0


From d871de14945c93c8f9b128efe9e6d72a1abed779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:19 +0000
Subject: [PATCH 24/32] fix: symbolic conditional density with noise on
 parameters: derivatives ignored the mean of the noise (C22)

---
 ...inearanalyticconditionalgaussian_ginac.cpp | 29 ++++++++++++-------
 ...nlinearanalyticconditionalgaussian_ginac.h |  4 +++
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 7874855..e39d72a 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -133,6 +133,21 @@ namespace BFL
   }
 
 
+  MatrixWrapper::ColumnVector
+  NonLinearAnalyticConditionalGaussian_Ginac::InputEvaluationGet() const
+  {
+    MatrixWrapper::ColumnVector u_num = ConditionalArgumentGet(1);
+
+    // use Mu of additive noise
+    for (unsigned int i=0; i<u_size; i++)
+      for (unsigned int j=0; j<cond_size; j++)
+	if (u_sym[i] == cond_sym[j])
+	  u_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
+
+    return u_num;
+  }
+
+
   MatrixWrapper::ColumnVector
   NonLinearAnalyticConditionalGaussian_Ginac::ExpectedValueGet() const
   {
@@ -142,17 +157,9 @@ namespace BFL
     GiNaC::ex substitute (func_size);
     MatrixWrapper::ColumnVector expected(func_size);
 
-    u_num = ConditionalArgumentGet(1);
+    u_num = InputEvaluationGet();
     x_num = ConditionalArgumentGet(0);
 
-    // use Mu of additive noise
-    if (cond_size!=0)
-      for (unsigned int i=0; i<u_size; i++)
-	for (unsigned int j=0; j<cond_size; j++)
-	  if (u_sym[i] == cond_sym[j])
-	      u_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
-
-
     // evaluate func
     for (unsigned int i=0; i<func_size; i++)
       {
@@ -190,7 +197,7 @@ namespace BFL
 	MatrixWrapper::Matrix D             (func_size,cond_size);
 
 
-	u_num = ConditionalArgumentGet(1);
+	u_num = InputEvaluationGet();
 	x_num = ConditionalArgumentGet(0);
 
 	for (unsigned int i=0; i<cond_size; i++)
@@ -242,7 +249,7 @@ namespace BFL
     GiNaC::ex substitute (func_size);
     MatrixWrapper::Matrix F             (func_size, x_size);
 
-    u_num = ConditionalArgumentGet(1);
+    u_num = InputEvaluationGet();
     x_num = ConditionalArgumentGet(0);
 
     // numeric evaluation of derivative: dfunc_dx = F
diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
index 1c2d077..04a7ce1 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
@@ -113,6 +113,10 @@ namespace BFL
 
 
     private:
+      /// The inputs at which function and derivatives are evaluated: noise on
+      /// parameters shifts them by its mean
+      MatrixWrapper::ColumnVector InputEvaluationGet() const;
+
       GiNaC::matrix 		  func_sym;
       vector<GiNaC::symbol> 	  cond_sym, u_sym, x_sym;
       unsigned int			  cond_size, u_size, x_size, func_size;
-- 
2.43.0


From 6c95fe1dcc3c90c6317ffd25fa8db03aaccc48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:59 +0000
Subject: [PATCH 25/32] fix: symbolic models never released their copy of the
 density, copies of a model shared it (C22)

---
 ...urementmodel_gaussianuncertainty_ginac.cpp | 34 +++++++++++++++----
 ...asurementmodel_gaussianuncertainty_ginac.h | 10 ++++--
 ...csystemmodel_gaussianuncertainty_ginac.cpp | 29 +++++++++++++++-
 ...ticsystemmodel_gaussianuncertainty_ginac.h |  9 +++++
 4 files changed, 72 insertions(+), 10 deletions(-)

diff --git a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
index e856168..a267c6c 100644
--- a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
@@ -26,18 +26,38 @@ namespace BFL
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac
   (NonLinearAnalyticConditionalGaussian_Ginac* const pdf)
     : AnalyticMeasurementModelGaussianUncertainty( new NonLinearAnalyticConditionalGaussian_Ginac( *pdf ) )
+    , _ownPdf( (NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet() )
   {}
 
 
-  // copy constructor: Not implemented yet
-  /*
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac
-  (const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& m)
-    : AnalyticMeasurementModelGaussianUncertainty( new NonLinearAnalyticConditionalGaussian_Ginac( (NonLinearAnalyticConditionalGaussian_Ginac*) m.MeasurementPdfGet()) )
-  {}
-  */
+  (const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& model)
+    : AnalyticMeasurementModelGaussianUncertainty( model )
+    , _ownPdf( new NonLinearAnalyticConditionalGaussian_Ginac( *model._ownPdf ) )
+  {
+    if (MeasurementPdfGet() == model._ownPdf) MeasurementPdfSet(_ownPdf);
+  }
+
 
-  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::~NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac() {}
+  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac&
+  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::operator= (const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& model)
+  {
+    if (this != &model)
+      {
+	NonLinearAnalyticConditionalGaussian_Ginac* copy = new NonLinearAnalyticConditionalGaussian_Ginac( *model._ownPdf );
+	AnalyticMeasurementModelGaussianUncertainty::operator=(model);
+	delete _ownPdf;
+	_ownPdf = copy;
+	if (MeasurementPdfGet() == model._ownPdf) MeasurementPdfSet(_ownPdf);
+      }
+    return *this;
+  }
+
+
+  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::~NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac()
+  {
+    delete _ownPdf;
+  }
 
   /*
   std::ostream& operator<< (std::ostream& os, NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& m)
diff --git a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h
index afd6892..1a58bcd 100644
--- a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h
+++ b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h
@@ -46,8 +46,11 @@ namespace BFL
        */
       NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac(NonLinearAnalyticConditionalGaussian_Ginac* const pdf);
 
-      /// copy constructor
-      //  NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac(const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& model);
+      /// Copy constructor: the copy has a density of its own
+      NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac(const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& model);
+
+      /// Assignment: the density is copied
+      NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& operator= (const NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac& model);
 
       /// Destructor
       virtual ~NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac();
@@ -80,6 +83,9 @@ namespace BFL
       /// Get conditional arguments
       vector<GiNaC::symbol> ConditionalGet();
 
+    private:
+      /// the copy of the density made for this model
+      NonLinearAnalyticConditionalGaussian_Ginac* _ownPdf;
     };
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
index 980f771..4ac92eb 100644
--- a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
@@ -29,11 +29,38 @@ namespace BFL
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::NonLinearAnalyticSystemModelGaussianUncertainty_Ginac
   (NonLinearAnalyticConditionalGaussian_Ginac* const pdf)
     : AnalyticSystemModelGaussianUncertainty( new NonLinearAnalyticConditionalGaussian_Ginac( *pdf ) )
+    , _ownPdf( (NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet() )
   {}
 
 
+  NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::NonLinearAnalyticSystemModelGaussianUncertainty_Ginac
+  (const NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& model)
+    : AnalyticSystemModelGaussianUncertainty( model )
+    , _ownPdf( new NonLinearAnalyticConditionalGaussian_Ginac( *model._ownPdf ) )
+  {
+    if (SystemPdfGet() == model._ownPdf) SystemPdfSet(_ownPdf);
+  }
+
+
+  NonLinearAnalyticSystemModelGaussianUncertainty_Ginac&
+  NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::operator= (const NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& model)
+  {
+    if (this != &model)
+      {
+	NonLinearAnalyticConditionalGaussian_Ginac* copy = new NonLinearAnalyticConditionalGaussian_Ginac( *model._ownPdf );
+	AnalyticSystemModelGaussianUncertainty::operator=(model);
+	delete _ownPdf;
+	_ownPdf = copy;
+	if (SystemPdfGet() == model._ownPdf) SystemPdfSet(_ownPdf);
+      }
+    return *this;
+  }
+
+
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::~NonLinearAnalyticSystemModelGaussianUncertainty_Ginac()
-  {}
+  {
+    delete _ownPdf;
+  }
 
   /*
   std::ostream& operator<< (std::ostream& os, NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& m)
diff --git a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h
index d7939ab..144affb 100644
--- a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h
+++ b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h
@@ -46,6 +46,12 @@ namespace BFL
        */
       NonLinearAnalyticSystemModelGaussianUncertainty_Ginac(NonLinearAnalyticConditionalGaussian_Ginac* const pdf);
 
+      /// Copy constructor: the copy has a density of its own
+      NonLinearAnalyticSystemModelGaussianUncertainty_Ginac(const NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& model);
+
+      /// Assignment: the density is copied
+      NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& operator= (const NonLinearAnalyticSystemModelGaussianUncertainty_Ginac& model);
+
       /// Destructor
       virtual ~NonLinearAnalyticSystemModelGaussianUncertainty_Ginac();
 
@@ -65,6 +71,9 @@ namespace BFL
       /// Get input symbols
       vector<GiNaC::symbol> InputGet();
 
+    private:
+      /// the copy of the density made for this model
+      NonLinearAnalyticConditionalGaussian_Ginac* _ownPdf;
     };
 
 } // End namespace BFL
-- 
2.43.0


From 7d92355d8927bdb7f102633349c2064b16030320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:01 +0000
Subject: [PATCH 26/32] fix: Gaussians with a rank-deficient covariance:
 rounding made sampling return the mean and false (C07)

---
 orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
index 4ed9fe3..8914537 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
@@ -17,7 +17,9 @@ namespace MatrixWrapper
         int sz = a.rows();
           for (int k=1; k<sz+1; ++k) {
            // check if close to zero => put to zero
-           if (a(k,k)< std::numeric_limits<double>::epsilon() && a(k,k)> -std::numeric_limits<double>::epsilon()){
+           // (close: not more than the rounding errors of the elimination, which grow with the diagonal element)
+           const double tolerance = std::numeric_limits<double>::epsilon() * std::max(1.0, 16.0*sz*(*(MySymmetricMatrix*)this)(k,k));
+           if (a(k,k)< tolerance && a(k,k)> -tolerance){
                    a(k,k) = 0.0; //set to zero, matrix is semidefinite
            }
            if (a(k,k) < 0.0) {
-- 
2.43.0


From a3ecfaa7eec6842ad91121ac4b6367498d345a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 27/32] fix: filling a boost vector with assign() wrote behind
 its end

ColumnVector/RowVector::assign(n, value) on the uBLAS backend indexed the 0-based storage with 1..n:
the first element kept its old value and the last write was out of range.
---
 orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
index 51d2f11..478ddf4 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
@@ -67,7 +67,7 @@ void MyColumnVector::assign(int num_rows, double value)
   BoostColumnVector & op1 = (*this);
   op1.resize(num_rows);
   for (unsigned int i=0; i<num_rows; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
@@ -275,7 +275,7 @@ void MyRowVector::assign(int num_columns, double value)
   BoostRowVector & op1 = (*this);
   op1.resize(num_columns);
   for (unsigned int i=0; i<num_columns; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
-- 
2.43.0


From 97f07eb144be63f175a3c1883f1f4c865edacc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 28/32] fix: rowCopy/columnCopy of the Eigen matrices counted
 from 0

Rows and columns are numbered from 1 in this interface (and in the other backends); row 1 gave the second row
and the last row read out of range.
---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 533ca6f..f68ab2b 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -182,12 +182,12 @@ MyMatrix&
 
 MyRowVector MyMatrix::rowCopy(unsigned int r) const
 {
-  return (MyRowVector) (*this).row(r);
+  return (MyRowVector) (*this).row(r-1);
 }
 
 MyColumnVector MyMatrix::columnCopy(unsigned int c) const
 {
-  return (MyColumnVector) (*this).col(c);
+  return (MyColumnVector) (*this).col(c-1);
 }
 
 
-- 
2.43.0


From 10883ae35551947aa948ded2e91ab401f1b26624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 29/32] fix: RowVector::vectorAdd of the Eigen backend used the
 number of rows

A row vector has one row: the result had two elements whatever was concatenated.
---
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index 0380eef..e9bf425 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -244,10 +244,10 @@ MyRowVector
 MyRowVector::vectorAdd(const MyRowVector& v2) const
 {
   const MyRowVector& v1 = *this;
-  MyRowVector res(v1.rows() + v2.rows());
+  MyRowVector res(v1.columns() + v2.columns());
   EigenRowVector& opl = res;
-  opl.head(v1.rows()) = (const EigenRowVector &)(v1);
-  opl.tail(v2.rows()) = (const EigenRowVector &)(v2);
+  opl.head(v1.columns()) = (const EigenRowVector &)(v1);
+  opl.tail(v2.columns()) = (const EigenRowVector &)(v2);
   return res;
 }
 
-- 
2.43.0


From 642d257b45fdc3dc2d7837b8dd6fc17a84d90c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 30/32] fix: determinant of a singular matrix aborted on the
 boost backend

lu_factorize reports a vanished pivot; for matrices of 3x3 and larger that was an assertion failure
instead of a determinant of zero.
---
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index 55d4da2..85edc85 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -243,7 +243,8 @@ double MyMatrix::determinant() const
             boost::numeric::ublas::permutation_matrix<> ndx(r);
             noalias(LU) = A;
             int res = lu_factorize(LU,ndx);
-            assert(res == 0);
+            // no pivot left: the matrix is singular
+            if (res != 0) return 0.0;
 
             int s = 1;
             for (boost::numeric::ublas::matrix<double>::size_type i=0;i<LU.size1();++i) {
@@ -434,7 +435,8 @@ double MySymmetricMatrix::determinant() const
         boost::numeric::ublas::permutation_matrix<> ndx(r);
         noalias(LU) = A;
         int res = lu_factorize(LU,ndx);
-        assert(res == 0);
+        // no pivot left: the matrix is singular
+        if (res != 0) return 0.0;
 
         double result = 1.0;
         int s = 1;
-- 
2.43.0


From a6575925c165094a438d6f568fdba99b08cad77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 31/32] fix: convertToSymmetricMatrix of the Eigen backend took
 the upper triangle

The interface documents (and the boost backend implements) conversion from the lower triangular part.
---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index f68ab2b..28d2851 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -224,7 +224,7 @@ MyMatrix::convertToSymmetricMatrix(MySymmetricMatrix& sym)
   assert(this->rows() == this->columns());
 
   const EigenMatrix & A = (EigenMatrix &) (*this);
-  sym = MySymmetricMatrix(A.selfadjointView<Eigen::Upper>());
+  sym = MySymmetricMatrix(EigenSymmetricMatrix(A.selfadjointView<Eigen::Lower>()));
   return 0;
 }
 
-- 
2.43.0


From 082dbb6afb049479020aef9319b264be6ca7157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 32/32] fix: resize with copy lost the contents on the Eigen
 backend

Matrix::resize and SymmetricMatrix::resize ignored their copy argument (default true).
---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 28d2851..d726d9f 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -232,7 +232,8 @@ void
 MyMatrix::resize(unsigned int i, unsigned int j, bool copy, bool initialize)
 {
   EigenMatrix & temp = (EigenMatrix &) (*this);
-  temp.resize(i,j);
+  if (copy) temp.conservativeResize(i,j);
+  else temp.resize(i,j);
 }
 
 // get sub matrix
@@ -505,7 +506,8 @@ void
 MySymmetricMatrix::resize(unsigned int i, bool copy, bool initialize)
 {
   EigenSymmetricMatrix & temp = (EigenSymmetricMatrix &) (*this);
-  temp.resize(i,i);
+  if (copy) temp.conservativeResize(i,i);
+  else temp.resize(i,i);
 }
 
 
-- 
2.43.0

