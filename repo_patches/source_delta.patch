From 1174426ba0987c82c666704905819d215ea43919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 01/53] fix: combine distributed multiscale coefficients with a
 sum, not a maximum

MPI_MAX over zero-padded partial vectors turned every negative local
coefficient into zero.
---
 src/gwmodelpp/GWRMultiscale.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 3e03f4a..232f617 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -950,7 +950,7 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
     mat S;
     vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
     vec beta(nDp);
-    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
+    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
     {
         mat SArrayi = mSArray.slice(var) - mS0;
@@ -985,7 +985,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarCVMpi(BandwidthWeight* bandwidthW
     GWM_MPI_MASTER_BEGIN
     betas_all = vec(size(betas));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     vec residual = mYi - mXi % betas_all;
     cv = sum(residual % residual);
@@ -1026,7 +1026,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarAICMpi(BandwidthWeight* bandwidth
     betas_all = vec(size(betas));
     shat_all = vec(size(shat));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     MPI_Reduce(shat.memptr(), shat_all.memptr(), shat.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     aic = GWRBasic::AICc(mXi, mYi, betas_all, shat_all);
-- 
2.43.0


From 9890ff80e7eb6654b5d18a81aeac320e0084cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:48 +0000
Subject: [PATCH 02/53] fix: give workers beyond the last observation an empty
 work range

With ceil(n/np) observations per worker the last workers could start
beyond the data (e.g. 6 observations on 4 workers), underflow the range
size and leave the others waiting forever.
---
 src/gwmodelpp/GWRBasic.cpp      | 16 ++++++++++------
 src/gwmodelpp/GWRMultiscale.cpp |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 12720c7..6456deb 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -93,7 +93,7 @@ mat GWRBasic::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         // cout << mWorkerId << " process work range: [" << workRangeFrom << "," << min(workRangeFrom + mWorkRangeSize, nDp) << "]\n";
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
         // cout << mWorkerId << " process work range: [" << mWorkRange.value().first << "," << mWorkRange.value().second << "]\n";
@@ -958,14 +958,14 @@ arma::mat gwm::GWRBasic::fitMpi()
         MPI_Recv(buf.get(), bufSize, MPI_DOUBLE, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &status);
         // printf("0 process received message with %d from %d\n", status.MPI_TAG, status.MPI_SOURCE);
         received(status.MPI_SOURCE, status.MPI_TAG - int(GWRBasicFitMpiTags::Betas)) = 1;
-        uword rangeFrom = status.MPI_SOURCE * mWorkRangeSize, rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
+        uword rangeFrom = min(status.MPI_SOURCE * mWorkRangeSize, nDp), rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
         switch (GWRBasicFitMpiTags(status.MPI_TAG))
         {
         case GWRBasicFitMpiTags::Betas:
-            mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::BetasSE:
-            mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::SHat:
             shat_all.col(status.MPI_SOURCE) = vec(buf.get(), 2);
@@ -994,8 +994,12 @@ arma::mat gwm::GWRBasic::fitMpi()
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
     // printf("%d process work range: [%lld, %lld]\n", mWorkerId, workRange.first, workRange.second);
     // cout << mWorkerId << " process work range: [" << workRange.first << "," << workRange.second << "]\n";
-    mat betas = mBetas.cols(workRange.first, workRange.second - 1);
-    mat betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    mat betas, betasSE;
+    if (workRange.second > workRange.first)
+    {
+        betas = mBetas.cols(workRange.first, workRange.second - 1);
+        betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    }
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::Betas), MPI_COMM_WORLD);
     MPI_Send(betasSE.memptr(), betasSE.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::BetasSE), MPI_COMM_WORLD);
     MPI_Send(mSHat.memptr(), mSHat.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::SHat), MPI_COMM_WORLD);
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 232f617..ec962fb 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -173,7 +173,7 @@ mat GWRMultiscale::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
     }
 #endif // ENABLE_MPI
@@ -258,7 +258,7 @@ mat GWRMultiscale::fit()
         if (mParallelType & ParallelType::MPI)
         {
             vec shati(2);
-            shati(0) = trace(mS0.cols(workRange.first, workRange.second - 1));
+            shati(0) = workRange.second > workRange.first ? trace(mS0.cols(workRange.first, workRange.second - 1)) : 0.0;
             shati(1) = trace(mS0 * mS0.t());
             MPI_Reduce(shati.memptr(), shat.memptr(), 2, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
             MPI_Bcast(shat.memptr(), 2, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-- 
2.43.0


From a06f7f66e622bbbf4a547e57c32e16a434abc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:48 +0000
Subject: [PATCH 03/53] fix: report a failed local regression to every MPI
 process

A process that threw inside its share of the work left all the others
blocked in the following communication.
---
 src/gwmodelpp/GWRBasic.cpp | 55 +++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 6456deb..60ce9ea 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -828,6 +828,14 @@ arma::mat GWRBasic::fitCoreSHatCuda(const arma::mat& x, const arma::vec& y, cons
 #endif
 
 #ifdef ENABLE_MPI
+// Tell every process whether all of them got through their part of the work
+static bool allWorkersSucceeded(bool success)
+{
+    int local = success ? 1 : 0, all = 0;
+    MPI_Allreduce(&local, &all, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    return all != 0;
+}
+
 double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
 {
     mat x = mX.cols(VariableForwardSelector::index2uvec(indepVars, mHasIntercept));
@@ -836,7 +844,17 @@ double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
     sw.weight<BandwidthWeight>()->setBandwidth(DBL_MAX);
     vec shat;
     double aic;
-    mat betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    mat betas;
+    bool success = true;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    }
+    catch (const std::exception& e)
+    {
+        success = false;
+    }
+    if (!allWorkersSucceeded(success)) return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -874,7 +892,17 @@ double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double cv;
-    mat betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    mat betas;
+    bool success = true;
+    try
+    {
+        betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    }
+    catch (const std::exception& e)
+    {
+        success = false;
+    }
+    if (!allWorkersSucceeded(success)) return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     uvec received(mWorkerNum, arma::fill::zeros);
     received.row(0).fill(1);
@@ -901,7 +929,17 @@ double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double aic;
     vec shat(2, fill::zeros);
-    mat betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    mat betas;
+    bool success = true;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    }
+    catch (const std::exception& e)
+    {
+        success = false;
+    }
+    if (!allWorkersSucceeded(success)) return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -938,7 +976,16 @@ arma::mat gwm::GWRBasic::fitMpi()
 {
     // fit GWR on each process
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
-    mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    bool success = true;
+    try
+    {
+        mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    }
+    catch (const std::exception& e)
+    {
+        success = false;
+    }
+    if (!allWorkersSucceeded(success)) throw std::runtime_error("Local regression failed in a process.");
     mBetasSE = mBetasSE.t();
     mS = mS.t();
     // gather results to master process
-- 
2.43.0


From 91c2c31e86201b1e78845c8a30795c36da8f4fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:23 +0000
Subject: [PATCH 04/53] fix: sum the hat matrix trace over all threads in the
 GGWR AICc criterion

Only the first thread's share was used, so the criterion depended on the
number of OpenMP threads.
---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 1b95a86..383a3f6 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -750,7 +750,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
 
     if (mStatus == Status::Success && S.is_finite())
     {
-        double trs = double(trS(0));
+        double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
-- 
2.43.0


From 246b134e1a3e27aaf24261554ac5d7c68a5d209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:07 +0000
Subject: [PATCH 05/53] fix: restart the hat matrix traces on every LCR-GWR
 calibration

Calibrating the same object twice doubled tr(S) and tr(S'S), hence wrong
ENP, EDF, AIC and adjusted R2.
---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 785dc24..245546e 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -334,6 +334,8 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
     vec localcn(nDp, fill::zeros);
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
+    mTrS = 0.0;
+    mTrStS = 0.0;
     for(uword i=0;i<nDp ;i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-- 
2.43.0


From 6357532edad91c92983e2facc8ed40d9bfc869cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:07 +0000
Subject: [PATCH 06/53] fix: size the OpenMP LCR-GWR prediction by the number
 of variables

mX.size() is the number of elements; the row assignment threw inside the
parallel region and terminated the process.
---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 245546e..7dc5800 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -477,7 +477,7 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
 
 mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, const vec& y)
 {
-    uword nRp = locations.n_rows, nVar = mX.size() + 1;
+    uword nRp = locations.n_rows, nVar = mX.n_cols;
     mat betas(nRp, nVar, fill::zeros);
     vec localcn(nRp, fill::zeros);
     vec locallambda(nRp, fill::zeros);
-- 
2.43.0


From 069291e9e66210d80cb2a27f3b3ec1b51a22ca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 07/53] fix: leave the own observation out in the OpenMP
 discriminant analysis

---
 src/gwmodelpp/GWDA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 1dfe708..aedbd1c 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -126,6 +126,7 @@ void GWDA::discriminantAnalysisOmp()
     {
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
+    if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
         mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
-- 
2.43.0


From 106cb22a648a20827900a03d2f7874ced55c6de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 08/53] fix: initialise the uniform weights of the quadratic
 discriminant analysis

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index aedbd1c..0507a67 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -222,10 +222,10 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
 {
     vector<string> lev = levels(y);
     uword m = lev.size();
-    // uword nDp = x.n_rows;
+    uword nDp = x.n_rows;
     uword nPr = xpr.n_rows;
     mat wtOnes;
-    // wtOnes.ones(nDp, nPr);
+    wtOnes.ones(nDp, nPr);
     vector<mat> xg = splitX(x, y);
     vector<vec> prior;
     mat wti; //(nDp, nPr, fill::zeros);
-- 
2.43.0


From b6f35c4500a97b749403631088ec30f50d2e4796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 09/53] fix: do not turn the training data into prediction data
 on a second GWDA run

---
 src/gwmodelpp/GWDA.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 0507a67..441ff7e 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -34,16 +34,19 @@ void GWDA::run()
         throw std::runtime_error("Two or more variables should be specfied for analysis");
     }
     // vec lev = levels(mY);
-    mHasPredict = !(mprX.is_empty() && mprY.empty());
-    if (mprX.is_empty())
+    bool hasPrX = !mprX.is_empty(), hasPrY = !mprY.empty();
+    mHasPredict = hasPrX || hasPrY;
+    if (!hasPrX)
     {
         mprX = mX;
     }
-    if (mprY.empty())
+    if (!hasPrY)
     {
         mprY = mY;
     }
     (this->*mDiscriminantAnalysisFunction)();
+    if (!hasPrX) mprX.reset();
+    if (!hasPrY) mprY.clear();
     uword NV = mRes.n_cols;
     vec correct(mY.size(), fill::zeros);
     for (uword i = 0; i < mGroup.size(); i++)
-- 
2.43.0


From aa83ed0a33c59d4db5caf8c5355be83593d88e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 10/53] fix: derive the GWDA membership probabilities from all
 discriminant scores

---
 src/gwmodelpp/GWDA.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 441ff7e..41745ce 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -59,15 +59,16 @@ void GWDA::run()
     uvec correctCount = find(correct == 1);
     mCorrectRate = (double)correctCount.n_rows / nRp;
     mat tmp = mRes.cols(0, NV - 1);
-    for (uword i = 0; i < NV - 1; i++)
+    vec tmpMin = min(tmp, 1);
+    for (uword i = 0; i < NV; i++)
     {
         vec tempi = tmp.col(i);
-        tmp.col(i) = exp(tempi);
+        tmp.col(i) = exp(tmpMin - tempi);
     }
     mat probs = tmp.each_col() / sum(tmp, 1); // / sum(tmp, 1);
     vec pmax = max(probs, 1);
     // double pnorm=0;
-    vec p = vec(NV - 1, fill::ones) / (NV - 1.0);
+    vec p = vec(NV, fill::ones) / double(NV);
     double entMax = shannonEntropy(p);
     vec entropy(nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
-- 
2.43.0


From 7e61b891acc3a5aa651d2c2e4c46ffdb691e028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:56 +0000
Subject: [PATCH 11/53] fix: report a failed local regression in the OpenMP GWR
 bandwidth and variable criteria

---
 src/gwmodelpp/GWRBasic.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 60ce9ea..0905229 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -518,6 +518,7 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -538,10 +539,15 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return betas.t();
 }
 
@@ -550,7 +556,8 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
-    int flag = true;
+    bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -575,10 +582,15 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas.t();
 }
-- 
2.43.0


From a7ec5fc5798f24001d8b298b0f471beb9c5b6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:56 +0000
Subject: [PATCH 12/53] fix: report a failed local regression in the OpenMP
 multiscale bandwidth criteria

---
 src/gwmodelpp/GWRMultiscale.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index ec962fb..e072eff 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -684,6 +684,7 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
     uword nDp = mCoords.n_rows;
     vec beta(nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -704,10 +705,15 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return beta;
 }
 
@@ -717,6 +723,7 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
     vec betas(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -741,10 +748,15 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas;
 }
-- 
2.43.0


From 01705baaa3ebfe30e40ab22740578812859dd9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:56 +0000
Subject: [PATCH 13/53] fix: report a failed local regression in the OpenMP
 density regression fit

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e845b65..b297832 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -304,6 +304,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
             {
                 GWM_LOG_ERROR(e.what());
                 except = e;
+                success = false;
             }
         }
         GWM_LOG_PROGRESS(i + 1, nDp);
-- 
2.43.0


From ca841886c544921b4822639f1ac90103c58ad7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 14/53] fix: compute the Manhattan distance for a Minkowski
 order of 1

---
 src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
index 377777a..69bd934 100644
--- a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
+++ b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
@@ -42,8 +42,8 @@ vec MinkwoskiDistance::distance(uword focus)
                 dp = CoordinateRotate(mParameter->dataPoints, mTheta);
                 rp = CoordinateRotate(mParameter->focusPoints.row(focus), mTheta);
             }
-            if (mPoly == 1.0) return ChessDistance(rp, dp);
-            else if (mPoly == -1.0) return ManhattonDist(rp, dp);
+            if (mPoly == 1.0) return ManhattonDist(rp, dp);
+            else if (mPoly == -1.0) return ChessDistance(rp, dp);
             else return MinkwoskiDist(rp, dp, mPoly);
         }
         else throw std::runtime_error("Target is out of bounds of data points.");
-- 
2.43.0


From 752f251b447b204563d0c5c67d6fa033bb8097d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 15/53] fix: make the Minkowski distance of general order
 computable

---
 include/gwmodelpp/spatialweight/MinkwoskiDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
index 2395476..4c49561 100644
--- a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
+++ b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
@@ -125,7 +125,7 @@ inline arma::vec MinkwoskiDistance::ManhattonDist(const arma::rowvec& out_loc, c
 
 inline arma::vec MinkwoskiDistance::MinkwoskiDist(const arma::rowvec& out_loc, const arma::mat& in_locs, double p)
 {
-    arma::vec temp = abs(in_locs.each_row() - out_loc);
+    arma::mat temp = abs(in_locs.each_row() - out_loc);
     return pow(sum(pow(temp, p), 1), 1.0 / p);
 }
 
-- 
2.43.0


From 73534acf424136a84a4c7ad60ba6aa59ad4983c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 16/53] fix: take the extreme distances in the metric of the
 distance object

---
 src/gwmodelpp/spatialweight/CRSDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSDistance.cpp b/src/gwmodelpp/spatialweight/CRSDistance.cpp
index 0c00116..93e109a 100644
--- a/src/gwmodelpp/spatialweight/CRSDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSDistance.cpp
@@ -137,7 +137,7 @@ double CRSDistance::maxDistance()
     double maxD = 0.0;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = max(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = max(distance(i));
         maxD = d > maxD ? d : maxD;
     }
     return maxD;
@@ -149,7 +149,7 @@ double CRSDistance::minDistance()
     double minD = DBL_MAX;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = min(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = min(distance(i));
         minD = d < minD ? d : minD;
     }
     return minD;
-- 
2.43.0


From f48b41d88a0ae50341217579d70d32ab447483b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 17/53] fix: allow copying an empty spatial weight

---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 4 ++--
 src/gwmodelpp/spatialweight/SpatialWeight.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 5a35e69..6e20b1f 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -106,8 +106,8 @@ public:
      */
     SpatialWeight(const SpatialWeight& spatialWeight)
     {
-        mWeight = spatialWeight.mWeight->clone();
-        mDistance = spatialWeight.mDistance->clone();
+        if (spatialWeight.mWeight) mWeight = spatialWeight.mWeight->clone();
+        if (spatialWeight.mDistance) mDistance = spatialWeight.mDistance->clone();
     }
 
     /**
diff --git a/src/gwmodelpp/spatialweight/SpatialWeight.cpp b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
index 256f548..de21b3e 100644
--- a/src/gwmodelpp/spatialweight/SpatialWeight.cpp
+++ b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
@@ -28,8 +28,8 @@ SpatialWeight &SpatialWeight::operator=(const SpatialWeight &spatialWeight)
     if (this == &spatialWeight) return *this;
     if (mWeight) delete mWeight;
     if (mDistance) delete mDistance;
-    mWeight = spatialWeight.mWeight->clone();
-    mDistance = spatialWeight.mDistance->clone();
+    mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+    mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     return *this;
 }
 
-- 
2.43.0


From 90f9faac409becdc1a9adbed9e5dc89eebbb7872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 18/53] fix: clone before deleting when a spatial weight is
 given its own component

---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 6e20b1f..abf4864 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -191,8 +191,9 @@ public:
      */
     void setWeight(Weight& weight)
     {
+        Weight* cloned = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = cloned;
     }
 
     /**
@@ -210,8 +211,9 @@ public:
      */
     void setWeight(Weight&& weight)
     {
+        Weight* cloned = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = cloned;
     }
 
     /**
@@ -283,8 +285,9 @@ public:
      */
     void setDistance(Distance& distance)
     {
+        Distance* cloned = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = cloned;
     }
 
     /**
@@ -302,8 +305,9 @@ public:
      */
     void setDistance(Distance&& distance)
     {
+        Distance* cloned = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = cloned;
     }
 
     /**
-- 
2.43.0


From e1c8f5e686298d54e6c9e685958a175535bbb233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 19/53] fix: copy the points of one-dimensional and
 spatio-temporal distances

---
 src/gwmodelpp/spatialweight/CRSSTDistance.cpp  | 5 +++--
 src/gwmodelpp/spatialweight/OneDimDistance.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
index 2d69970..dd377e7 100644
--- a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
@@ -83,9 +83,10 @@ CRSSTDistance::CRSSTDistance(const CRSSTDistance &distance)
     }
     else throw std::runtime_error("The lambda must be in [0,1].");
     // mLambda = distance.mLambda;
-    mSpatialDistance = distance.mSpatialDistance->clone();
+    if (distance.mSpatialDistance) mSpatialDistance = distance.mSpatialDistance->clone();
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
-    mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    if (distance.mTemporalDistance) mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
     mCalculator=distance.mCalculator;
 }
 
diff --git a/src/gwmodelpp/spatialweight/OneDimDistance.cpp b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
index 9e5cbd7..ad255dd 100644
--- a/src/gwmodelpp/spatialweight/OneDimDistance.cpp
+++ b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
@@ -15,7 +15,7 @@ OneDimDistance::OneDimDistance() : Distance()
 
 OneDimDistance::OneDimDistance(const OneDimDistance &distance) : Distance(distance)
 {
-    
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
 }
 
 void OneDimDistance::makeParameter(initializer_list<DistParamVariant> plist)
-- 
2.43.0


From 94db5dc80d6bc368a2cac6ae7793f3637a1acc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:46 +0000
Subject: [PATCH 20/53] fix: release the components of a spatio-temporal
 distance

---
 include/gwmodelpp/spatialweight/CRSSTDistance.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/gwmodelpp/spatialweight/CRSSTDistance.h b/include/gwmodelpp/spatialweight/CRSSTDistance.h
index 01df73d..0dbddb7 100644
--- a/include/gwmodelpp/spatialweight/CRSSTDistance.h
+++ b/include/gwmodelpp/spatialweight/CRSSTDistance.h
@@ -75,6 +75,12 @@ public:
      */
     CRSSTDistance(const CRSSTDistance& distance);
 
+    virtual ~CRSSTDistance()
+    {
+        delete mSpatialDistance;
+        delete mTemporalDistance;
+    }
+
     Distance * clone() const override
     {
         return new CRSSTDistance(*this);
-- 
2.43.0


From 7b3d8cfcc6a5345669839c594c872d4698708788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:59 +0000
Subject: [PATCH 21/53] fix: expose the hat matrix of the robust GWR through
 the inherited accessor

---
 include/gwmodelpp/GWRRobust.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index e22256c..b9c6bb0 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -130,7 +130,6 @@ protected:
 private:
     bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
-    arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
     RegressionHatmatrix mfitFunction = &GWRRobust::fitSerial;   //!< \~english Calculator for fitting \~chinese 拟合函数
-- 
2.43.0


From 079620248c32f8a51b5375afa421e067bc3086c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:59 +0000
Subject: [PATCH 22/53] fix: initialise the calibration mode of the robust GWR

---
 include/gwmodelpp/GWRRobust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index b9c6bb0..fbaf360 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -128,7 +128,7 @@ protected:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 private:
-    bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
+    bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
-- 
2.43.0


From b8a53337f57b461a0e9fedd2c7eaf45b4a721549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:59 +0000
Subject: [PATCH 23/53] fix: search the whole distance range for multiscale
 bandwidths with an initial value

---
 src/gwmodelpp/GWRMultiscale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index e072eff..caa27e3 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -197,6 +197,8 @@ mat GWRMultiscale::fit()
     for (uword i = 0; i < nVar ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
+        mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
+        mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
         if (mBandwidthInitilize[i] == BandwidthInitilizeType::Null)
         {
             mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -204,8 +206,6 @@ mat GWRMultiscale::fit()
             mXi = mX.col(i);
             BandwidthWeight* bw0 = bandwidth(i);
             bool adaptive = bw0->adaptive();
-            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
-            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
 
             GWM_LOG_INFO(string(GWM_LOG_TAG_MGWR_INITIAL_BW) + to_string(i));
             BandwidthSelector selector;
-- 
2.43.0


From 867c99219da505c9e4e516c6832923e0f6a7996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:59 +0000
Subject: [PATCH 24/53] fix: keep the configured bandwidth initialisation when
 multiscale backfitting converges

---
 src/gwmodelpp/GWRMultiscale.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index caa27e3..c9b0af8 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -302,6 +302,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
     // ***********************************************************
     GWM_LOG_MGWR_BACKFITTING("Selecting the optimum bandwidths for each independent variable");
     uvec bwChangeNo(nVar, fill::zeros);
+    vector<BandwidthInitilizeType> bandwidthInitilize = mBandwidthInitilize;
     vec resid = mY - Fitted(mX, betas);
     double RSS0 = sum(resid % resid), RSS1 = DBL_MAX;
     double criterion = DBL_MAX;
@@ -315,7 +316,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
             mXi = mX.col(i);
             vec fi = betas.col(i) % mX.col(i);
             mYi = resid + fi;
-            if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
+            if (bandwidthInitilize[i] != BandwidthInitilizeType::Specified)
             {
                 GWM_LOG_MGWR_BACKFITTING("#variable-bandwidth-selection " + to_string(i));
                 mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -345,7 +346,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
                     bwChangeNo(i) += 1;
                     if (bwChangeNo(i) >= mBandwidthSelectRetryTimes)
                     {
-                        mBandwidthInitilize[i] = BandwidthInitilizeType::Specified;
+                        bandwidthInitilize[i] = BandwidthInitilizeType::Specified;
                         vbs_args.push_back("true");
                     }
                     else
-- 
2.43.0


From 87d292843e714bc9dab02f92e38f0d8cb2472841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:59 +0000
Subject: [PATCH 25/53] fix: fill in the AIC of the multiscale diagnostic

---
 src/gwmodelpp/GWRMultiscale.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index c9b0af8..2cbd966 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -69,6 +69,7 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
     // 保存结果
     RegressionDiagnostic diagnostic;
     diagnostic.RSS = RSSg;
+    diagnostic.AIC = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp + trS;
     diagnostic.AICc = AICc;
     diagnostic.ENP = enp;
     diagnostic.EDF = edf;
-- 
2.43.0


From f5ecb9a8f3ff65c32dc7a421655a66f10d4ebcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:23 +0000
Subject: [PATCH 26/53] fix: weight the local regressions of generalized GWR
 without hat matrix element by element

---
 src/gwmodelpp/GWRGeneralized.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 383a3f6..5cc52ab 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -274,7 +274,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 betas.col(i) = gwsi;
             }
             catch (const exception& e)
@@ -377,7 +377,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -469,8 +469,8 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                    mBetas.col(i) = gwsi;
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                    betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
                 catch (const exception& e)
@@ -545,8 +545,8 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                mBetas.col(i) = gwsi;
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                betas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
             catch (const exception& e)
-- 
2.43.0


From 452e5bbe938e01921a5408cdddb9f7bbf5b395c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:10 +0000
Subject: [PATCH 27/53] fix: compute the AICc of the global generalized linear
 model without integer division

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 5cc52ab..b71add7 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -194,7 +194,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
     double dev = mGlm.dev();
     double pseudor2 = 1 - dev / nulldev;
     double aic = dev + 2 * nVar;
-    double aicc = aic + 2 * nVar * (nVar + 1) / (nDp - nVar - 1);
+    double aicc = aic + 2.0 * nVar * (nVar + 1) / ((double)nDp - nVar - 1);
     vec vGLMDiags(5);
     vGLMDiags(0) = aic;
     vGLMDiags(1) = aicc;
-- 
2.43.0


From 6b349bd9886c110c9d07048ad066183f2969e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:51 +0000
Subject: [PATCH 28/53] fix: predict generalized GWR at the given locations

---
 src/gwmodelpp/GWRGeneralized.cpp | 42 ++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index b71add7..f54db3d 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -57,7 +57,7 @@ mat GWRGeneralized::fit()
         mShat = vec(2, fill::zeros);
     }
     mWtMat1 = mat(nDp, nDp, fill::zeros);
-    mWtMat2 = mat(nRp, nDp, fill::zeros);
+    mWtMat2 = mat(nDp, nRp, fill::zeros);
     if (mHasRegressionData)
     {
         for (uword i = 0; i < nRp; i++)
@@ -171,13 +171,35 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
-    mHasHatMatrix = false;
+    uword nDp = mCoords.n_rows, nVars = mX.n_cols, nRp = locations.n_rows;
+    createDistanceParameter();
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
+    mWtMat1 = mat(nDp, nDp, fill::zeros);
+    for (uword i = 0; i < nDp; i++)
+    {
+        mWtMat1.col(i) = mSpatialWeight.weightVector(i);
+    }
     createPredictionDistanceParameter(locations);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
+    mWtMat2 = mat(nDp, nRp, fill::zeros);
+    for (uword i = 0; i < nRp; i++)
+    {
+        mWtMat2.col(i) = mSpatialWeight.weightVector(i);
+    }
 
-    mBetas = (this->*mGGWRfitFunction)(mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    bool hasHatMatrix = mHasHatMatrix;
+    mHasHatMatrix = false;
+    try
+    {
+        mBetas = trans((this->*mGGWRfitFunction)(mX, mY));
+    }
+    catch (...)
+    {
+        mHasHatMatrix = hasHatMatrix;
+        throw;
+    }
+    mHasHatMatrix = hasHatMatrix;
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
     return mBetas;
 }
@@ -209,7 +231,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
 } */
 mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -296,7 +318,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 #ifdef ENABLE_OPENMP
 mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -403,7 +425,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 {
     uword nVar = x.n_cols;
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
     mat betas = mat(nVar, nRp, fill::zeros);
@@ -493,7 +515,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 
 mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
-- 
2.43.0


From 4f25353dac2646e894098edb6d9bd719b6170124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:07 +0000
Subject: [PATCH 29/53] fix: take the smallest value as local quantile when it
 alone carries the weight

---
 src/gwmodelpp/GWSS.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index f1acf85..22b350d 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -34,14 +34,10 @@ vec GWSS::findq(const mat &x, const vec &w)
         double k = 0.25 * (j + 1);
         for(uword i = 0; i < lw; i++){
             if(Cum(i) > k){
-                cond = i - 1;
+                cond = i > 0 ? i - 1 : 0;
                 break;
             }
         }
-        if(cond < 0)
-        {
-            cond = 0;
-        }
         q.row(j) = xo[cond];
         cond = lw - 1;
     }
-- 
2.43.0


From b6a7f334239fecd6416a2ee46a61af9a70e85f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:07 +0000
Subject: [PATCH 30/53] fix: allow scalable GWR with cross-validation and fewer
 than 50 neighbours

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 00d1325..f61b2a4 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -313,11 +313,11 @@ mat GWRScalable::predict(const mat& locations)
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>(50, min<uword>(nBw, mDpNNDists.n_cols)) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>(50, min<uword>(nBw, mDpNNDists.n_cols)) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
@@ -477,11 +477,11 @@ mat GWRScalable::fit()
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>(50, min<uword>(nBw, mDpNNDists.n_cols)) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>(50, min<uword>(nBw, mDpNNDists.n_cols)) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
-- 
2.43.0


From f40d9ced8e4317a8ae87f640eb05f9aa649f92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:07 +0000
Subject: [PATCH 31/53] fix: size a cancelled scalable GWR prediction by the
 number of variables

---
 src/gwmodelpp/GWRScalable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index f61b2a4..85689a3 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -303,7 +303,7 @@ mat GWRScalable::predict(const mat& locations)
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
-    arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_rows, nBw = (uword)bandwidth->bandwidth();
+    arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_cols, nBw = (uword)bandwidth->bandwidth();
     if (nBw >= nDp) 
     {
         nBw = nDp - 1;
-- 
2.43.0


From 9441a6f78d195f59eb86a1c9bc5984678d91982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:07 +0000
Subject: [PATCH 32/53] fix: stop at the first model when no variable meets the
 selection threshold

---
 src/gwmodelpp/VariableForwardSelector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 039acbb..290259f 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -65,7 +65,7 @@ vector<pair<vector<size_t>, double> > VariableForwardSelector::sort(vector<pair<
 
 pair<vector<size_t>, double> VariableForwardSelector::select(vector<pair<vector<size_t>, double> > models)
 {
-    for (size_t i = models.size() - 1; i >= 0; i--)
+    for (size_t i = models.size() - 1; i > 0; i--)
     {
         if (models[i - 1].second - models[i].second >= mThreshold)
         {
-- 
2.43.0


From 7e4584b787561a16c68e25cf1067f73e9e16ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:07 +0000
Subject: [PATCH 33/53] fix: scale the local component deviations by the
 weights of their own location

---
 src/gwmodelpp/GWPCA.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index a2a954a..8994660 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -20,7 +20,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
 {
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     mat d_all(nVar, nDp, arma::fill::zeros);
-    vec w0;
+    vec w_sum(nDp, arma::fill::zeros);
     loadings = cube(nDp, nVar, mK, arma::fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
@@ -29,7 +29,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         mat V;
         vec d;
         wpca(x, w, V, d);
-        w0 = w;
+        w_sum(i) = sum(w);
         d_all.col(i) = d;
         for (int j = 0; j < mK; j++)
         {
@@ -38,7 +38,8 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     d_all = trans(d_all);
-    mat variance = (d_all / sqrt(sum(w0))) % (d_all / sqrt(sum(w0)));
+    mat variance = d_all % d_all;
+    variance.each_col() /= w_sum;
     sdev = sqrt(variance);
     mat pv = variance.cols(0, mK - 1).each_col() % (1.0 / sum(variance, 1)) * 100.0;
     return pv;
-- 
2.43.0


From 1bcfa6d82bd1c15620e9b1d1561496731353fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:57 +0000
Subject: [PATCH 34/53] fix: size cancelled predictions by the prediction
 locations

---
 src/gwmodelpp/GWRBasic.cpp             | 6 +++---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 0905229..78d2eb2 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -172,7 +172,7 @@ mat GWRBasic::fit()
 mat GWRBasic::predict(const mat& locations)
 {
     GWM_LOG_STAGE("Initialization");
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
+    uword nRp = locations.n_rows, nVars = mX.n_cols;
     createPredictionDistanceParameter(locations);
 #ifdef ENABLE_CUDA
     if (mParallelType & ParallelType::CUDA)
@@ -181,11 +181,11 @@ mat GWRBasic::predict(const mat& locations)
         mSpatialWeight.prepareCuda(mGpuId);
     }
 #endif // ENABLE_CUDA
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
     
     GWM_LOG_STAGE("Prediction");
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
 #ifdef ENABLE_CUDA
     if (mParallelType & ParallelType::CUDA)
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 7dc5800..99c49bb 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -99,12 +99,12 @@ void GWRLocalCollinearity::createPredictionDistanceParameter(const arma::mat& lo
 
 mat GWRLocalCollinearity::predict(const mat& locations)
 {
-    uword nDp = mCoords.n_rows, nVar = mX.n_cols;
+    uword nRp = locations.n_rows, nVar = mX.n_cols;
     createPredictionDistanceParameter(locations);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVar, arma::fill::zeros));
 
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVar, arma::fill::zeros));
     
     return mBetas;
 }
-- 
2.43.0


From 41f43a11bdb56c94afe3ce7b09b0290984edf675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:36 +0000
Subject: [PATCH 35/53] fix: start every calculation with a successful status

---
 src/gwmodelpp/GTWR.cpp                 | 2 ++
 src/gwmodelpp/GWDA.cpp                 | 1 +
 src/gwmodelpp/GWDR.cpp                 | 1 +
 src/gwmodelpp/GWPCA.cpp                | 1 +
 src/gwmodelpp/GWRBasic.cpp             | 2 ++
 src/gwmodelpp/GWRGeneralized.cpp       | 2 ++
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 src/gwmodelpp/GWRMultiscale.cpp        | 1 +
 src/gwmodelpp/GWRRobust.cpp            | 2 ++
 src/gwmodelpp/GWRScalable.cpp          | 2 ++
 src/gwmodelpp/GWSS.cpp                 | 1 +
 11 files changed, 17 insertions(+)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 6de7ba3..b33cac6 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -28,6 +28,7 @@ RegressionDiagnostic GTWR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GTWR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing")
     createDistanceParameter();
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
@@ -91,6 +92,7 @@ mat GTWR::fit()
 
 mat GTWR::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createPredictionDistanceParameter(locations);
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
     return mBetas;
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 41745ce..b1695c4 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -28,6 +28,7 @@ bool GWDA::isValid()
 // template<class T>
 void GWDA::run()
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     uword nRp = mCoords.n_rows;
     if(mX.n_cols<2){
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index b297832..9dfc5d5 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -31,6 +31,7 @@ RegressionDiagnostic GWDR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GWDR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDims = mCoords.n_cols, nDp = mCoords.n_rows, nVars = mX.n_cols;
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index 8994660..99949d9 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -5,6 +5,7 @@ using namespace gwm;
 
 void GWPCA::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     createDistanceParameter();
     GWM_LOG_STOP_RETURN(mStatus, void());
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 78d2eb2..14c1a67 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -61,6 +61,7 @@ RegressionDiagnostic GWRBasic::CalcDiagnostic(const mat& x, const vec& y, const
 
 mat GWRBasic::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
 #ifdef ENABLE_MPI
@@ -171,6 +172,7 @@ mat GWRBasic::fit()
 
 mat GWRBasic::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nRp = locations.n_rows, nVars = mX.n_cols;
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index f54db3d..5d57665 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -19,6 +19,7 @@ using namespace gwm;
 
 mat GWRGeneralized::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     // 初始化
     // setXY(mX, mY, mSourceLayer, mDepVar, mIndepVars);
@@ -171,6 +172,7 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nVars = mX.n_cols, nRp = locations.n_rows;
     createDistanceParameter();
     GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 99c49bb..529ca32 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -38,6 +38,7 @@ GWRLocalCollinearity::~GWRLocalCollinearity()
 
 mat GWRLocalCollinearity::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -99,6 +100,7 @@ void GWRLocalCollinearity::createPredictionDistanceParameter(const arma::mat& lo
 
 mat GWRLocalCollinearity::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nRp = locations.n_rows, nVar = mX.n_cols;
     createPredictionDistanceParameter(locations);
     GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVar, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 2cbd966..58f3800 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -80,6 +80,7 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
 
 mat GWRMultiscale::fit()
 {
+    mStatus = Status::Success;
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     // ********************************
     // Centering and scaling predictors
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 2dfb292..48c6f8b 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -29,6 +29,7 @@ RegressionDiagnostic GWRRobust::CalcDiagnostic(const mat &x, const vec &y, const
 
 mat GWRRobust::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -106,6 +107,7 @@ mat GWRRobust::fit()
 
 mat GWRRobust::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     size_t nDp = locations.n_rows, nVar = mX.n_cols;
 
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 85689a3..16aabfb 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -299,6 +299,7 @@ void GWRScalable::prepare()
 
 mat GWRScalable::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
@@ -462,6 +463,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
 
 mat GWRScalable::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 22b350d..464a65e 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -58,6 +58,7 @@ bool GWSS::isValid()
 
 void GWSS::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nRp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
-- 
2.43.0


From 3dd1e3024c7a4d60425349e6552d6f4d8abe576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:47 +0000
Subject: [PATCH 36/53] fix: let a failed local regression leave the OpenMP
 LCR-GWR loops as an exception

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 213 +++++++++++++++----------
 1 file changed, 129 insertions(+), 84 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 529ca32..3882118 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -278,39 +278,54 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
     uword current = 0;
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        //int thread = omp_get_thread_num();
-        vec distvi = mSpatialWeight.distance()->distance(i);
-        vec wgt = bandwidthWeight->weight(distvi);
-        //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
-        wgt(i) = 0;
-        mat wgtspan(1,mXnot1.n_cols,fill::ones);
-        mat wgtspan1(1,mX.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wgt * wgtspan);
-        //计算x1w
-        mat x1w = mX % (wgt * wgtspan1);
-        //计算用于SVD分解的矩阵
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+        try
+        {
+            //int thread = omp_get_thread_num();
+            vec distvi = mSpatialWeight.distance()->distance(i);
+            vec wgt = bandwidthWeight->weight(distvi);
+            //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
+            wgt(i) = 0;
+            mat wgtspan(1,mXnot1.n_cols,fill::ones);
+            mat wgtspan1(1,mX.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wgt * wgtspan);
+            //计算x1w
+            mat x1w = mX % (wgt * wgtspan1);
+            //计算用于SVD分解的矩阵
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+            current++;
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
-        current++;
+    }
+    if (!success)
+    {
+        throw except;
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -429,48 +444,63 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
     vec hatrow(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nDp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        int thread = omp_get_thread_num();
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        try
+        {
+            int thread = omp_get_thread_num();
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+            //如果没有给regressionpoint
+            mat xm = x;
+            mat xtw = trans(x % (wi * wispan1));
+            mat xtwx = xtw * x;
+            mat xtwxinv = inv(xtwx);
+            rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
+            shat_all(0, thread) += hatrow(i);
+            shat_all(1, thread) += sum(hatrow % hatrow);
+            this->mTrS += hatrow(i);
+            this->mTrStS += sum(hatrow % hatrow);
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
-        //如果没有给regressionpoint
-        mat xm = x;
-        mat xtw = trans(x % (wi * wispan1));
-        mat xtwx = xtw * x;
-        mat xtwxinv = inv(xtwx);
-        rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
-        shat_all(0, thread) += hatrow(i);
-        shat_all(1, thread) += sum(hatrow % hatrow);
-        this->mTrS += hatrow(i);
-        this->mTrStS += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
+    if (!success)
+    {
+        throw except;
+    }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
     this->mTrStS = sum(shat.row(1));
@@ -487,37 +517,52 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
 
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        try
+        {
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
+    if (!success)
+    {
+        throw except;
+    }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
     this->mTrStS = sum(shat.row(1));
-- 
2.43.0


From 4935851ab773e374cf438c5b468048412a83b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:47 +0000
Subject: [PATCH 37/53] fix: let a failed local regression leave the OpenMP
 generalized GWR criteria as an exception

---
 src/gwmodelpp/GWRGeneralized.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 5d57665..0c7d205 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -659,11 +659,13 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     (this->*mCalWtFunction)(mX, mY, wt);
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             mat wi = wt.col(i) % mWt2;
             vec gwsi = gwPredict(mX, myAdj, wi);
@@ -677,6 +679,16 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
                 cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
             }
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
+    }
+    if (!success)
+    {
+        throw except;
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
@@ -757,11 +769,13 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
     vec trS = vec(mOmpThreadNum, fill::zeros);
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        try
         {
             int thread = omp_get_thread_num();
             vec wi = wt.col(i) % mWt2;
@@ -769,6 +783,16 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
             S.row(i) = mX.row(i) * Ci;
             trS(thread) += S(i, i);
         }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
+    }
+    if (!success)
+    {
+        throw except;
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
-- 
2.43.0


From b056de95fe25b5b6110049f981bd7c6cde16b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 38/53] fix: report a failed local regression of scalable GWR

---
 src/gwmodelpp/GWRScalable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 16aabfb..9daa09e 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -656,6 +656,7 @@ arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
         catch (const exception& e) 
         {
             GWM_LOG_ERROR(e.what());
+            throw;
         }
         GWM_LOG_PROGRESS((n + i + 1) / 2, n);
     }
-- 
2.43.0


From 9782ad87d631dea531aef1626394dde8c05a4846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:26 +0000
Subject: [PATCH 39/53] fix: accept a variable selection without candidate
 variables

---
 src/gwmodelpp/VariableForwardSelector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 290259f..3f1bb76 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -8,6 +8,7 @@ using namespace gwm;
 
 vector<size_t> VariableForwardSelector::optimize(IVarialbeSelectable *instance)
 {
+    if (mVariables.empty()) return mVariables;
     vector<size_t> curIndex, restIndex;
     for (size_t i = 0; i < mVariables.size(); i++)
     {
-- 
2.43.0


From 708ba4bb2ed30ffaaad6c7b93ed580142e77a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:03 +0000
Subject: [PATCH 40/53] fix: keep the adaptive bandwidth search inside its
 bounds

---
 src/gwmodelpp/BandwidthSelector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index fbd4767..f9f48e2 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -8,6 +8,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
     BandwidthWeight* w1 = static_cast<BandwidthWeight*>(mBandwidth->clone());
     BandwidthWeight* w2 = static_cast<BandwidthWeight*>(mBandwidth->clone());
     double xU = mUpper, xL = mLower;
+    const double xMin = min(mLower, mUpper), xMax = max(mLower, mUpper);
     bool adaptBw = mBandwidth->adaptive();
     const double eps = 1e-4;
     const double R = (sqrt(5)-1)/2;
@@ -42,7 +43,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xL = x2;
             x2 = x1;
-            x1 = adaptBw ? round(xL + d) : (xL + d);
+            x1 = adaptBw ? min(max(round(xL + d), xMin), xMax) : (xL + d);
             f2 = f1;
             w1->setBandwidth(x1);
             s1 = instance->getCriterion(w1, f1);
@@ -53,7 +54,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xU = x1;
             x1 = x2;
-            x2 = adaptBw ? floor(xU - d) : (xU - d);
+            x2 = adaptBw ? min(max(floor(xU - d), xMin), xMax) : (xU - d);
             f1 = f2;
             w2->setBandwidth(x2);
             s2 = instance->getCriterion(w2, f2);
-- 
2.43.0


From 825be5934fc2f694f67406932268e62c76957db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:55 +0000
Subject: [PATCH 41/53] fix: search fixed density regression bandwidths around
 their configured values

---
 src/gwmodelpp/GWDR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 9dfc5d5..3f66059 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -786,7 +786,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
     gsl_vector* steps = gsl_vector_alloc(nDim);
     for (size_t m = 0; m < nDim; m++)
     {
-        double target_value = mBandwidths[m]->adaptive() ? mBandwidths[m]->bandwidth() / double(featureCount) : mBandwidths[m]->bandwidth();
+        double target_value = mBandwidths[m]->bandwidth() / double(featureCount);
         gsl_vector_set(targets, m, target_value);
         gsl_vector_set(steps, m, step);
     }
@@ -831,7 +831,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             double pbw = abs(gsl_vector_get(minimizer->x, m));
             // pbw = (pbw > 1.0 ? 1.0 : pbw);
-            mBandwidths[m]->setBandwidth(round(pbw * featureCount));
+            mBandwidths[m]->setBandwidth(mBandwidths[m]->adaptive() ? round(pbw * featureCount) : pbw * featureCount);
         }
     }
     gsl_multimin_fminimizer_free(minimizer);
-- 
2.43.0


From db135a1d6a39d508b4fe9ba66ed01eb5411930bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:44 +0000
Subject: [PATCH 42/53] fix: report a scalable GWR whose parameters cannot be
 optimized

---
 src/gwmodelpp/GWRScalable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 9daa09e..5d1124d 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -338,6 +338,7 @@ mat GWRScalable::predict(const mat& locations)
         mBetas = predictSerial(locations, mX, mY);
         GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVar, fill::zeros));
     }
+    else throw std::runtime_error("[GWRScalable::predict] No parameters could be optimized.");
     return mBetas;
 }
 
@@ -516,6 +517,7 @@ mat GWRScalable::fit()
         mBetasSE = sqrt(sigmaHat * mBetasSE);
         mat betasTV = mBetas / mBetasSE;
     }
+    else throw std::runtime_error("[GWRScalable::fit] No parameters could be optimized.");
     return mBetas;
 }
 
-- 
2.43.0


From 4512178e85bc65703ed197559111a9669397e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 43/53] fix: initialise the figures of a regression diagnostic

---
 include/gwmodelpp/RegressionDiagnostic.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/gwmodelpp/RegressionDiagnostic.h b/include/gwmodelpp/RegressionDiagnostic.h
index dece266..a446da0 100644
--- a/include/gwmodelpp/RegressionDiagnostic.h
+++ b/include/gwmodelpp/RegressionDiagnostic.h
@@ -10,13 +10,13 @@ namespace gwm
  */
 struct RegressionDiagnostic
 {
-    double RSS;             //!< \~english Sum of squared residual \~chinese 残差平方和
-    double AIC;             //!< \~english Akaike information criterion  \~chinese 赤池信息准则指数
-    double AICc;            //!< \~english Corrected Akaike information criterion \~chinese 修正赤池信息准则指数
-    double ENP;             //!< \~english Effective number of parameters \~chinese 有效参数数
-    double EDF;             //!< \~english Effective degrees of freedom \~chinese 有效自由度
-    double RSquare;         //!< \f$R^2\f$
-    double RSquareAdjust;   //!< \~english Adjusted \f$R^2\f$ \~chinese 调整 \f$R^2\f$ 值
+    double RSS = 0.0;             //!< \~english Sum of squared residual \~chinese 残差平方和
+    double AIC = 0.0;             //!< \~english Akaike information criterion  \~chinese 赤池信息准则指数
+    double AICc = 0.0;            //!< \~english Corrected Akaike information criterion \~chinese 修正赤池信息准则指数
+    double ENP = 0.0;             //!< \~english Effective number of parameters \~chinese 有效参数数
+    double EDF = 0.0;             //!< \~english Effective degrees of freedom \~chinese 有效自由度
+    double RSquare = 0.0;         //!< \f$R^2\f$
+    double RSquareAdjust = 0.0;   //!< \~english Adjusted \f$R^2\f$ \~chinese 调整 \f$R^2\f$ 值
 };
 
 }
-- 
2.43.0


From 79d9ebaae5c5c127a9c6e4a44e8c9f81c2196c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 44/53] fix: reset the diagnostics of a generalized GWR fitted
 without hat matrix

---
 src/gwmodelpp/GWRGeneralized.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 0c7d205..af00a8b 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -157,6 +157,7 @@ mat GWRGeneralized::fit()
     }
     else
     {
+        mDiagnostic = GWRGeneralizedDiagnostic();
         mBetas = trans(mBetas);
         return mBetas;
     }
-- 
2.43.0


From ca5b91e75cda3551d3a8630ebc55c0c5078c11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:09 +0000
Subject: [PATCH 45/53] fix: limit the bandwidth of a scalable GWR before
 collecting neighbours

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 5d1124d..2fdda17 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -301,8 +301,6 @@ mat GWRScalable::predict(const mat& locations)
 {
     mStatus = Status::Success;
     createDistanceParameter();
-    mDpSpatialWeight = mSpatialWeight;
-    findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_cols, nBw = (uword)bandwidth->bandwidth();
     if (nBw >= nDp) 
@@ -310,6 +308,8 @@ mat GWRScalable::predict(const mat& locations)
         nBw = nDp - 1;
         bandwidth->setBandwidth((double)nBw);
     }
+    mDpSpatialWeight = mSpatialWeight;
+    findDataPointNeighbours();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
@@ -467,8 +467,6 @@ mat GWRScalable::fit()
     mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter();
-    mDpSpatialWeight = mSpatialWeight;
-    findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     arma::uword nDp = mX.n_rows, nVar = mX.n_cols, nBw = (uword)bandwidth->bandwidth();
     if (nBw >= nDp) 
@@ -476,6 +474,8 @@ mat GWRScalable::fit()
         nBw = nDp - 1;
         bandwidth->setBandwidth((double)nBw);
     }
+    mDpSpatialWeight = mSpatialWeight;
+    findDataPointNeighbours();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
-- 
2.43.0


From 52e3da053bfac9694350739f987392d7a718efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:49 +0000
Subject: [PATCH 46/53] fix: report the progress of a generalized GWR
 prediction against its own locations

---
 src/gwmodelpp/GWRGeneralized.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index af00a8b..fedcbaa 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -308,7 +308,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
                 except=e;
                 isAllCorrect = false;
             }
-            GWM_LOG_PROGRESS(i + 1, nDp);
+            GWM_LOG_PROGRESS(i + 1, nRp);
         }
     }
     if (!isAllCorrect)
@@ -414,7 +414,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                     // emit error(e.what());
                 }
             }
-            GWM_LOG_PROGRESS(i + 1, nDp);
+            GWM_LOG_PROGRESS(i + 1, nRp);
         }
     }
     if(!isAllCorrect){
@@ -506,7 +506,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                     // emit error(e.what());
                 }
             }
-            GWM_LOG_PROGRESS(i + 1, nDp)
+            GWM_LOG_PROGRESS(i + 1, nRp)
         }
     }
     if(!isAllCorrect){
-- 
2.43.0


From a9f17e330ca92406436c06a685530d7a5945c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:13 +0000
Subject: [PATCH 47/53] fix: make the default bandwidth criterion the one that
 is reported

---
 include/gwmodelpp/GTWR.h           | 2 +-
 include/gwmodelpp/GWRBasic.h       | 2 +-
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/GTWR.h b/include/gwmodelpp/GTWR.h
index 519013c..4ecc0c4 100644
--- a/include/gwmodelpp/GTWR.h
+++ b/include/gwmodelpp/GTWR.h
@@ -621,7 +621,7 @@ protected:
     bool mIsAutoselectLambda = false;//!< \~english Whether need lambda autoselect. \~chinese 是否需要自动优选lambda。
 
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;//!< \~english Bandwidth Selection Criterion Type. \~chinese 默认的带宽优选方式。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionCVSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionAICSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;//!< \~english Bandwidth Selection Criterion List. \~chinese 默认的带宽优选参数列表。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
 
diff --git a/include/gwmodelpp/GWRBasic.h b/include/gwmodelpp/GWRBasic.h
index 30665d2..01c768a 100644
--- a/include/gwmodelpp/GWRBasic.h
+++ b/include/gwmodelpp/GWRBasic.h
@@ -744,7 +744,7 @@ protected:
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether to auto select bandwidth. \~chinese 是否自动优选带宽。
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;    //!< \~english Type criterion for bandwidth selection. \~chinese 带宽优选的指标值类型。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionCV; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionAIC; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;    //!< \~english Criterion list of each bandwidth. \~chinese 每种带宽组合对应的指标值。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
     std::optional<double> mGoldenUpperBounds;
diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index f73cf09..397bbba 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -443,7 +443,7 @@ protected:
     CalWtFunction mCalWtFunction = &GWRGeneralized::PoissonWtSerial;        //!< \~english Calculator for weighting \~chinese 加权函数
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether bandwidth optimization is enabled \~chinese 是否进行带宽优选
-    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::AIC;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
+    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::CV;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
     BandwidthSelectCriterionFunction mBandwidthSelectCriterionFunction = &GWRGeneralized::bandwidthSizeGGWRCriterionCVSerial;   //!< \~english Calculator to get criterion for given bandwidth value \~chinese 用于根据给定带宽值计算指标值的函数
     BandwidthSelector mBandwidthSizeSelector;   //!< \~english Bandwidth size selector \~chinese 带宽选择器
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
-- 
2.43.0


From 781e70bfc3d8b073fb079231630c12d7b81d199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 48/53] fix: report a missing weighting scheme as invalid
 instead of dereferencing it

---
 src/gwmodelpp/GTWR.cpp          | 4 ++--
 src/gwmodelpp/GWRBasic.cpp      | 4 ++--
 src/gwmodelpp/GWRMultiscale.cpp | 3 +++
 src/gwmodelpp/GWRScalable.cpp   | 3 +++
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index b33cac6..3373f19 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -270,8 +270,8 @@ bool GTWR::isValid()
 {
     if (GWRBase::isValid())
     {
-        double bw = mSpatialWeight.weight<BandwidthWeight>()->bandwidth();
-        if (!(bw > 0))
+        BandwidthWeight* bw = mSpatialWeight.weight<BandwidthWeight>();
+        if (!(bw && bw->bandwidth() > 0))
         {
             return false;
         }
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 14c1a67..4f4e432 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -1198,8 +1198,8 @@ bool GWRBasic::isValid()
 {
     if (GWRBase::isValid())
     {
-        double bw = mSpatialWeight.weight<BandwidthWeight>()->bandwidth();
-        if (!(bw > 0))
+        BandwidthWeight* bw = mSpatialWeight.weight<BandwidthWeight>();
+        if (!(bw && bw->bandwidth() > 0))
         {
             return false;
         }
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 58f3800..2bc770e 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -473,6 +473,9 @@ bool GWRMultiscale::isValid()
         BandwidthWeight* bw = mSpatialWeights[i].weight<BandwidthWeight>();
         if (mBandwidthInitilize[i] == GWRMultiscale::Specified || mBandwidthInitilize[i] == GWRMultiscale::Initial)
         {
+            if (!bw)
+                return false;
+
             if (bw->adaptive())
             {
                 if (bw->bandwidth() <= 1)
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 2fdda17..959937c 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -672,6 +672,9 @@ bool GWRScalable::isValid()
     if (GWRBase::isValid())
     {
         BandwidthWeight* bw = mSpatialWeight.weight<BandwidthWeight>();
+        if (!bw)
+            return false;
+
         if (!(bw->kernel() == BandwidthWeight::Gaussian || bw->kernel() == BandwidthWeight::Exponential))
             return false;
 
-- 
2.43.0


From 6779864c24f4bea466cc1a8ee86d307ab1074417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:57 +0000
Subject: [PATCH 49/53] fix: let robust GWR search its bandwidth within the
 golden bounds that were set

---
 src/gwmodelpp/GWRRobust.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 48c6f8b..cd052f5 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -63,8 +63,8 @@ mat GWRRobust::fit()
     {
         GWM_LOG_STAGE("Bandwidth selection");
         BandwidthWeight* bw0 = mSpatialWeight.weight<BandwidthWeight>();
-        double lower = bw0->adaptive() ? 20 : 0.0;
-        double upper = bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance();
+        double lower = mGoldenLowerBounds.value_or(bw0->adaptive() ? 20 : 0.0);
+        double upper = mGoldenUpperBounds.value_or(bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance());
         
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
-- 
2.43.0


From 75d26d21eeb7f112c76573e282cbbe1c731448cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:29 +0000
Subject: [PATCH 50/53] fix: predict with the kernel scale of the data points
 in scalable GWR

---
 src/gwmodelpp/GWRScalable.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 959937c..8036a69 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -344,6 +344,9 @@ mat GWRScalable::predict(const mat& locations)
 
 mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const arma::vec &y)
 {
+    // The kernel keeps the scale of the data points, whatever the locations to predict are.
+    umat dpNNIndex;
+    mat dpNNDists = findNeighbours(mCoords, dpNNIndex);
     // Create Predict distance parameters
     if (mSpatialWeight.distance()->type() == Distance::DistanceType::CRSDistance || 
         mSpatialWeight.distance()->type() == Distance::DistanceType::MinkwoskiDistance)
@@ -361,11 +364,11 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(rpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(dpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
         G0 = exp(-pow(rpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(rpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(dpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
         G0 = exp(-pow(rpNNDists / band0, 2));
         break;
     default:
-- 
2.43.0


From ef9c1b78054f30791dd55d673dd24fb652606679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:32 +0000
Subject: [PATCH 51/53] fix: use the exponential kernel where scalable GWR is
 told to

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 8036a69..d21065a 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -319,7 +319,7 @@ mat GWRScalable::predict(const mat& locations)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>(50, min<uword>(nBw, mDpNNDists.n_cols)) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -369,7 +369,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(dpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
-        G0 = exp(-pow(rpNNDists / band0, 2));
+        G0 = exp(-rpNNDists / band0);
         break;
     default:
         return mat(nRp, nVar, fill::zeros);
@@ -488,7 +488,7 @@ mat GWRScalable::fit()
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>(50, min<uword>(nBw, mDpNNDists.n_cols)) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -549,7 +549,7 @@ arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(dpNNDists.col(min<uword>(50, bw) - 1)) / 3;
-        mG0 = exp(-pow(dpNNDists / band0, 2));
+        mG0 = exp(-dpNNDists / band0);
         break;
     default:
         return betas.t();
-- 
2.43.0


From ae817a451df7c78b279b060b5512cb27f1463b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 52/53] fix: give tied values their mean rank in local Spearman
 correlations

---
 include/gwmodelpp/GWSS.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/GWSS.h b/include/gwmodelpp/GWSS.h
index 8173486..5d7dbc0 100644
--- a/include/gwmodelpp/GWSS.h
+++ b/include/gwmodelpp/GWSS.h
@@ -96,9 +96,15 @@ public:
 
     static arma::vec rank(arma::vec x)
     {
-        arma::vec n = arma::linspace(0.0, (double)x.n_rows - 1, x.n_rows);
-        arma::vec res = n(sort_index(x));
-        return n(sort_index(res)) + 1.0;
+        arma::uvec order = arma::sort_index(x);
+        arma::vec res(x.n_elem);
+        for (arma::uword i = 0, j = 0; i < x.n_elem; i = j)
+        {
+            // tied values share the mean of their positions
+            while (j < x.n_elem && !(x(order(i)) < x(order(j)))) j++;
+            for (arma::uword k = i; k < j; k++) res(order(k)) = 0.5 * double(i + j + 1);
+        }
+        return res;
     }
 
     typedef void (GWSS::*SummaryCalculator)();  //!< \~english Calculator for summary statistics \~chinese 汇总统计计算函数
-- 
2.43.0


From fa9cd6dfdd021470dff4348072be342ef59234cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 53/53] fix: reject adaptive density regression bandwidths
 below one neighbour in the search

---
 src/gwmodelpp/GWDR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 3f66059..195282b 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -773,6 +773,8 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     for (size_t m = 0; m < bandwidths.size(); m++)
     {
         double pbw = abs(gsl_vector_get(bws, m));
+        // an adaptive bandwidth has to reach the first neighbour at least
+        if (bandwidths[m]->adaptive() && pbw * nFeature < 1.0) return DBL_MAX;
         bandwidths[m]->setBandwidth(pbw * nFeature);
     }
     return instance->bandwidthCriterion(bandwidths);
-- 
2.43.0

