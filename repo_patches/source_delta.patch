From 468a8873dd0ccd4e966abc204e466d5ec2a8242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 01/14] fix: hkSeq sums the stack over all receiver functions,
 not only the last one

---
 src/rfsed/hkSeqYeck.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 57ec82e..2b96d6c 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -192,8 +192,8 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 amppsps = getamp(trdata, t, tpspsSed)
                 #--------------------------------------
                 stemp = (w1Sed * ampps) + (w2Sed * ampppps) - (w3Sed * amppsps)
-                sSed = stemp + s
-            stkSed[z,:] = [Htemp, Ktemp, sSed]
+                s = stemp + s
+            stkSed[z,:] = [Htemp, Ktemp, s]
             z = z + 1
     bmodSed = stkSed[np.argmax(stkSed[:,2]),:]
     #----------------------------------------------------------
@@ -252,9 +252,9 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 ampppps = getamp(trdata, t, tpppsMoho)  
                 amppsps = getamp(trdata, t, tpspsMoho)
                 stemp = (w1Moho * ampps) + (w2Moho * ampppps) - (w3Moho * amppsps)
-                sMoho = stemp + s
+                s = stemp + s
                 #--------------------------------------
-            stkMoho[z,:] = [Htemp, Ktemp, sMoho]
+            stkMoho[z,:] = [Htemp, Ktemp, s]
             z = z + 1
     bmodMoho = stkMoho[np.argmax(stkMoho[:,2]),:]
     #----------------------------------------------------------
-- 
2.43.0


From 1cb560ff1a7ebf85395d1c724babc6ab1b737b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 02/14] fix: hkYu applies its default weights when they are
 omitted

---
 src/rfsed/hkYu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rfsed/hkYu.py b/src/rfsed/hkYu.py
index 9c0855e..be2184b 100644
--- a/src/rfsed/hkYu.py
+++ b/src/rfsed/hkYu.py
@@ -122,9 +122,9 @@ def hkYu(FltResult, rayp, HSubSed, KSubSed, VpMoho, VpSed, VsSed, w1SubSed,
 
     if VpMoho is None: VpMoho = 6.5
     if VpSed is None: VpSed = 2.5
-    if w1SubSed is None: w1 = 0.6
-    if w2SubSed is None: w2 = 0.3
-    if w3SubSed is None: w3 = 0.1   
+    if w1SubSed is None: w1SubSed = 0.6
+    if w2SubSed is None: w2SubSed = 0.3
+    if w3SubSed is None: w3SubSed = 0.1   
     #----------------------------------------------------------
     rp=rayp
     Fltrf=FltResult['filteredrf']
-- 
2.43.0


From 5685927759f26695d21e1bf34712b630fe3947dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 03/14] fix: phaseshift no longer divides by zero when the
 shift is a quarter of nfft

---
 src/rfsed/synrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index f38f6fc..a81d724 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -104,9 +104,9 @@ def correl(R, W, nfft):
 def phaseshift(x, nfft, dt, preonset):
     Xf = fft(x, nfft)
     shift_i = int(preonset / dt)
-    p = 2 * pi * np.arange(1, nfft + 1) * shift_i / nfft
+    p = 2 * pi * np.arange(0, nfft) * shift_i / nfft
     Xf = Xf * np.vectorize(complex)(np.cos(p), -np.sin(p))
-    x = ifft(Xf, nfft) / np.cos(2 * pi * shift_i / nfft)
+    x = ifft(Xf, nfft)
     x = x.real
     return x
 
-- 
2.43.0


From aced37d3aa63e0fb6f226e9c626f2432cd9ac4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 04/14] fix: phaseshift rounds the shift to the nearest sample
 instead of truncating

---
 src/rfsed/synrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index a81d724..af7e992 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -103,7 +103,7 @@ def correl(R, W, nfft):
 
 def phaseshift(x, nfft, dt, preonset):
     Xf = fft(x, nfft)
-    shift_i = int(preonset / dt)
+    shift_i = int(round(preonset / dt))
     p = 2 * pi * np.arange(0, nfft) * shift_i / nfft
     Xf = Xf * np.vectorize(complex)(np.cos(p), -np.sin(p))
     x = ifft(Xf, nfft)
-- 
2.43.0


From 05daef3fb3e4d490a49f594ee5e73ebcdcc3ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 05/14] fix: deconv_iterative returns the misfit of every
 iteration, including the last

---
 src/rfsed/synrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index af7e992..7b46037 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -204,7 +204,7 @@ def deconv_iterative(uin, win, dt, nt=None, preonset=10, gaussian=2.0,
     p_flt = gfilter(p0, nfft, gaussF, dt)
     p_flt = phaseshift(p_flt, nfft, dt, preonset)
     RFI = p_flt[0:nt]
-    rms = rms[0:it - 1]
+    rms = rms[0:it]
 
     return RFI, rms, it 
     
-- 
2.43.0


From 87102d44016bc9453a1b2e9c179ff1724a0e7b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 06/14] fix: locate the waveform fitting window without exact
 float comparison or truncation

---
 src/rfsed/WaveformFitting.py          | 5 ++---
 src/rfsed/WaveformFittingMultiproc.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/rfsed/WaveformFitting.py b/src/rfsed/WaveformFitting.py
index 731fc1b..9977eb0 100644
--- a/src/rfsed/WaveformFitting.py
+++ b/src/rfsed/WaveformFitting.py
@@ -133,11 +133,10 @@ def WaveformFitting(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     preonset = abs(t[0])
     n=len(StackedData)
     # Waveform Fitting start from t = 0 to t = 25 seconds
-    tzero=np.where(t==0)[0]
-    tzero=int(tzero[0])  
+    tzero=int(np.abs(t).argmin())
     start=tzero
     end= 25/delta
-    end=tzero + int(end)
+    end=tzero + int(round(end))
     #----------------------------------------------------------
     MohoSol=[]
     z=0
diff --git a/src/rfsed/WaveformFittingMultiproc.py b/src/rfsed/WaveformFittingMultiproc.py
index 185c62d..bb6afcb 100644
--- a/src/rfsed/WaveformFittingMultiproc.py
+++ b/src/rfsed/WaveformFittingMultiproc.py
@@ -119,11 +119,10 @@ def WaveformPara(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     preonset=abs(t[0])
     n=len(StackedData)
     # Waveform Fitting start from t = 0 to t = 25 seconds
-    tzero=np.where(t==0)[0]
-    tzero=int(tzero[0])  
+    tzero=int(np.abs(t).argmin())
     start=tzero
     end= 25/delta
-    end=tzero + int(end)
+    end=tzero + int(round(end))
     #----------------------------------------------------------
     parameters=[{'rfstream':rfstream, 'rayp': rayp, 'gaussian':gaussian, 
                  'HSed':HSed,  'VpSed':VpSed, 'VpCrust':VpCrust, 
-- 
2.43.0


From 3a9bb6b8fdc23b91d4d4bfac4a1f4ed0b1c4b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 07/14] fix: plotting no longer overwrites negative values in
 the stacking results it is given

---
 src/rfsed/SynthAnalysis.py | 6 +++---
 src/rfsed/hkSeqYeck.py     | 4 ++--
 src/rfsed/hkYu.py          | 2 +-
 src/rfsed/hkZhu.py         | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index d4f55bb..5de50ac 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -565,7 +565,7 @@ def plothkSynth(HKResultSynth, savepath, g = [75.,10., 15., 2.5], rmneg = None,
         maxtime=10
         span=0.1
         timestep=1
-    stk = HKResultSynth['stackvalues']
+    stk = HKResultSynth['stackvalues'].copy()
     H = HKResultSynth['H']
     K = HKResultSynth['K']
     plt.figure(figsize=(18, 6)) 
@@ -687,7 +687,7 @@ def plothkSeqSynth(SynthSeqHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodSed = SynthSeqHKResult['bestmodelSed']
     H1 = bmodSed[0]
     K1 = bmodSed[1]
-    stkSed=SynthSeqHKResult['stackvalueSed']
+    stkSed=SynthSeqHKResult['stackvalueSed'].copy()
     
     rfstream=SynthSeqHKResult['SynthRFSed']
     rp = SynthSeqHKResult['RayP']
@@ -770,7 +770,7 @@ def plothkSeqSynth(SynthSeqHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodMoho = SynthSeqHKResult['bestmodelMoho']  
     H2 = bmodMoho[0]
     K2 = bmodMoho[1]
-    stkMoho=SynthSeqHKResult['stackvalueMoho']
+    stkMoho=SynthSeqHKResult['stackvalueMoho'].copy()
     rfstream=SynthSeqHKResult['SynthRFMoho']
     rp = rp
     t=SynthSeqHKResult['time']
diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 2b96d6c..a532862 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -341,7 +341,7 @@ def plotSeqhk(SequentialHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodSed = SequentialHKResult['bestmodelSed']
     H1 = bmodSed[0]
     K1 = bmodSed[1]
-    stkSed=SequentialHKResult['stackvalueSed']
+    stkSed=SequentialHKResult['stackvalueSed'].copy()
     if SequentialHKResult['stack'] == True:
         rfstream=SequentialHKResult['RFSedStack']
         rp = kilometer2degrees(1) * SequentialHKResult['AvgSlow']
@@ -551,7 +551,7 @@ def plotSeqhk(SequentialHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodMoho = SequentialHKResult['bestmodelMoho']  
     H2 = bmodMoho[0]
     K2 = bmodMoho[1]
-    stkMoho=SequentialHKResult['stackvalueMoho']
+    stkMoho=SequentialHKResult['stackvalueMoho'].copy()
 
     if SequentialHKResult['stack'] == True:
         rfstream=SequentialHKResult['RFMohoStack']
diff --git a/src/rfsed/hkYu.py b/src/rfsed/hkYu.py
index be2184b..e6afcb9 100644
--- a/src/rfsed/hkYu.py
+++ b/src/rfsed/hkYu.py
@@ -258,7 +258,7 @@ def plothkYu(hkYuResult, savepath, g = [75.,10., 15., 2.5], rmneg = True,
     bmodSubSed = hkYuResult['bestmodelSubSed']
     H2 = bmodSubSed[0]
     K2 = bmodSubSed[1]
-    stkSubSed=hkYuResult['stackvaluesSubSed']
+    stkSubSed=hkYuResult['stackvaluesSubSed'].copy()
     term1= ((K2/VpMoho)**2 - rp**2)**0.5
     term2= ((1/VpMoho)**2 - rp**2)**0.5
     tps = H2 * (term1 - term2)
diff --git a/src/rfsed/hkZhu.py b/src/rfsed/hkZhu.py
index 1b4b52a..06dc98f 100644
--- a/src/rfsed/hkZhu.py
+++ b/src/rfsed/hkZhu.py
@@ -277,7 +277,7 @@ def plothk(HKResult, savepath, g = [75.,10., 15., 2.5], rmneg = True,
         timestep=1
     H=HKResult['H']
     K=HKResult['K']
-    stk = HKResult['stackvalues']
+    stk = HKResult['stackvalues'].copy()
     plt.figure(figsize=(18, 6)) 
     gs = gridspec.GridSpec(1, 3, width_ratios=[6,4,4])
     #-----Remove the stack values that is lower than zero------
-- 
2.43.0


From a4b384911fc6af7d8a030873ac8e4c52286dd432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 08/14] fix: sequential H-K returns the Moho stack as computed,
 clipping only the plotted copy

---
 src/rfsed/SynthAnalysis.py | 9 +++++----
 src/rfsed/hkSeqYeck.py     | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index 5de50ac..0bdbb75 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -375,10 +375,11 @@ def hkSeqSynth(rfSynthSed, rfSynthMoho, time, rayp, HSed, KSed, VpSed, w1Sed,
     bmodMoho = stkMoho[np.argmax(stkMoho[:,2]),:]
     #----------------------------------------------------------
     # plot Moho Stacking results
-    for i in range(len(stkMoho)):
-        if stkMoho[i,2] <= 0:
-            stkMoho[i,2] = 0
-    plt.tricontourf(stkMoho[:,0], stkMoho[:,1], stkMoho[:,2],60, cmap='jet')
+    stkMohoPlot = stkMoho.copy()
+    for i in range(len(stkMohoPlot)):
+        if stkMohoPlot[i,2] <= 0:
+            stkMohoPlot[i,2] = 0
+    plt.tricontourf(stkMohoPlot[:,0], stkMohoPlot[:,1], stkMohoPlot[:,2],60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmodMoho[0],bmodMoho[1], 'k+', mew=5, ms=15,\
         label='Best Model %s km %s Vp/Vs'%(bmodMoho[0], bmodMoho[1]))
diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index a532862..e74091c 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -259,10 +259,11 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
     bmodMoho = stkMoho[np.argmax(stkMoho[:,2]),:]
     #----------------------------------------------------------
     # plot Moho Stacking results
-    for i in range(len(stkMoho)):
-        if stkMoho[i,2] <= 0:
-            stkMoho[i,2] = 0
-    plt.tricontourf(stkMoho[:,0], stkMoho[:,1], stkMoho[:,2],60, cmap='jet')
+    stkMohoPlot = stkMoho.copy()
+    for i in range(len(stkMohoPlot)):
+        if stkMohoPlot[i,2] <= 0:
+            stkMohoPlot[i,2] = 0
+    plt.tricontourf(stkMohoPlot[:,0], stkMohoPlot[:,1], stkMohoPlot[:,2],60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmodMoho[0],bmodMoho[1], 'k+', mew=5, ms=15,\
         label='Best Model %s km %s Vp/Vs'%(bmodMoho[0], bmodMoho[1]))
-- 
2.43.0


From ca4ae89ab374da4173cace02eebc9ecfa9279f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 09/14] fix: PlotWaveformFitting uses the weights it is given

---
 src/rfsed/WaveformFitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfsed/WaveformFitting.py b/src/rfsed/WaveformFitting.py
index 9977eb0..4a7db50 100644
--- a/src/rfsed/WaveformFitting.py
+++ b/src/rfsed/WaveformFitting.py
@@ -300,11 +300,12 @@ def PlotWaveformFitting(WaveformFitting, wtCorr, wtRMSE, wtPG, savepath, format)
                                               :]
     BestModel_RMSE = WaveformSolutions[np.argmin(WaveformSolutions[:,1]),:]
     BestModel_PG = WaveformSolutions[np.argmax(WaveformSolutions[:,2]),:]
-    BestModel_GoF = WaveformSolutions[np.argmax(WaveformSolutions[:,3]),:]
     Corr = WaveformSolutions[:,0]
     RMSE = WaveformSolutions[:,1]
     PG = WaveformSolutions[:,2]
-    GoF = WaveformSolutions[:,3]
+    # Overall Goodness of Fit with the weights given for plotting
+    GoF = wtCorr*(Corr/max(Corr)) + wtRMSE*(1-(RMSE/max(RMSE))) + wtPG*(PG/max(PG))
+    BestModel_GoF = WaveformSolutions[np.argmax(GoF),:]
     #----------------------------------------------------------
     labels=['Correlation Coefficient', 'Root-mean-square Error', 
             'Phase Goodness of Fit', 'Overall Goodness of Fit']
-- 
2.43.0


From dee01d44e9d5838fa4e97a22ed98fe0e8e1707b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 10/14] fix: stack every receiver function, not only those that
 share one trace id

---
 src/rfsed/ReverbFilter.py             |  3 +--
 src/rfsed/WaveformFitting.py          | 10 ++++------
 src/rfsed/WaveformFittingMultiproc.py | 10 ++++------
 src/rfsed/hkSeqYeck.py                | 10 ++++------
 src/rfsed/hkZhu.py                    |  5 ++---
 5 files changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/rfsed/ReverbFilter.py b/src/rfsed/ReverbFilter.py
index 0fc2063..6e5e827 100644
--- a/src/rfsed/ReverbFilter.py
+++ b/src/rfsed/ReverbFilter.py
@@ -97,8 +97,7 @@ def ResonanceFilt(rfstream, preonset):
     t = (delta *  t) - preonset 
     time=t
     dt=rfstream[0].stats.delta
-    StackedRF=rfstream.stack()
-    StackedData=StackedRF[0].data 
+    StackedData=np.mean([tr.data for tr in rfstream], axis=0)
     #---------------------------------------------
     # Build the frequency vector
     #---------------------------------------------
diff --git a/src/rfsed/WaveformFitting.py b/src/rfsed/WaveformFitting.py
index 4a7db50..91ac529 100644
--- a/src/rfsed/WaveformFitting.py
+++ b/src/rfsed/WaveformFitting.py
@@ -124,9 +124,8 @@ def WaveformFitting(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     t = np.arange(0, l)
     t = (delta *  t) - preonset 
     staname = rfstream[0].stats.station
-    Stacked=rfstream.select(component='R').stack()
-    StackedRF=Stacked[0]
-    StackedData=StackedRF.data
+    Stacked=rfstream.select(component='R')
+    StackedData=np.mean([tr.data for tr in Stacked], axis=0)
     Stdd=np.std(StackedData, axis=0)
     StddPlus = StackedData + Stdd
     StddMinus = StackedData - Stdd
@@ -358,9 +357,8 @@ def PlotWaveformFitting(WaveformFitting, wtCorr, wtRMSE, wtPG, savepath, format)
         t = (np.arange(0, len(rfstream[0].data), 1) * delta) + b
         preonset=abs(t[0]) 
         staname = rfstream[0].stats.station
-        Stacked=rfstream.select(component='R').stack()
-        StackedRF=Stacked[0]
-        StackedData=StackedRF.data
+        Stacked=rfstream.select(component='R')
+        StackedData=np.mean([tr.data for tr in Stacked], axis=0)
         Stdd=np.std(StackedData, axis=0)
         StddPlus = StackedData + Stdd
         StddMinus = StackedData - Stdd
diff --git a/src/rfsed/WaveformFittingMultiproc.py b/src/rfsed/WaveformFittingMultiproc.py
index bb6afcb..1ad4c4b 100644
--- a/src/rfsed/WaveformFittingMultiproc.py
+++ b/src/rfsed/WaveformFittingMultiproc.py
@@ -110,9 +110,8 @@ def WaveformPara(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     t = np.arange(0, l)
     t = (delta *  t) - preonset 
     staname = rfstream[0].stats.station
-    Stacked=rfstream.select(component='R').stack()
-    StackedRF=Stacked[0]
-    StackedData=StackedRF.data
+    Stacked=rfstream.select(component='R')
+    StackedData=np.mean([tr.data for tr in Stacked], axis=0)
     Stdd=np.std(StackedData, axis=0)
     StddPlus = StackedData + Stdd
     StddMinus = StackedData - Stdd
@@ -427,9 +426,8 @@ def plotbestmodel(WaveformResults, ModelParams, wtCorr, wtRMSE, wtPG,
         b = rfstream[0].stats.starttime - rfstream[0].stats.onset
         t = (np.arange(0, len(rfstream[0].data), 1) * delta) + b
         staname = rfstream[0].stats.station
-        Stacked=rfstream.select(component='R').stack()
-        StackedRF=Stacked[0]
-        StackedData=StackedRF.data
+        Stacked=rfstream.select(component='R')
+        StackedData=np.mean([tr.data for tr in Stacked], axis=0)
         Stdd=np.std(StackedData, axis=0)
         StddPlus = StackedData + Stdd
         StddMinus = StackedData - Stdd
diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index e74091c..eff9eff 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -146,10 +146,8 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
     if w2Sed is None: w2Sed = 0.3
     if w3Sed is None: w3Sed = 0.1  
     if stack is None: stack = False 
-    StackedRFSed=rfstreamSed.stack()
-    RFStackedSed=StackedRFSed[0].data
-    StackedRFMoho=rfstreamMoho.stack()
-    RFStackedMoho=StackedRFMoho[0].data
+    RFStackedSed=np.mean([tr.data for tr in rfstreamSed], axis=0)
+    RFStackedMoho=np.mean([tr.data for tr in rfstreamMoho], axis=0)
     staname = rfstreamSed[0].stats.station
     comp =  rfstreamSed[0].stats.channel
     rfdata = rfstreamSed[0].data
@@ -178,7 +176,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 delta= tr.stats.delta
                 rp = kilometer2degrees(1) * tr.stats['slowness']
                 if stack == True:
-                    trdata = StackedRFSed[0].data
+                    trdata = RFStackedSed
                     rp = kilometer2degrees(1) * AvgSlow
                 #--------------------------------------
                 term1= ((Ktemp/VpSed)**2 - rp**2)**0.5
@@ -236,7 +234,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 delta= tr.stats.delta
                 rp = kilometer2degrees(1) * tr.stats['slowness']
                 if stack == True:
-                    trdata = StackedRFMoho[0].data
+                    trdata = RFStackedMoho
                     rp=kilometer2degrees(1) * AvgSlow 
                 #--------------------------------------
                 term1 = ((K1/VpSed)**2-(rp)**2)**0.5
diff --git a/src/rfsed/hkZhu.py b/src/rfsed/hkZhu.py
index 06dc98f..b249a7a 100644
--- a/src/rfsed/hkZhu.py
+++ b/src/rfsed/hkZhu.py
@@ -119,8 +119,7 @@ def hk(rfstream, preonset, H, K, Vp, w1, w2, w3, layer, stack=False):
     if w3 is None: w3 = 0.1   
     if layer is None: layer = 'Moho'
     if stack is None: stack = False
-    StackedRF=rfstream.stack()
-    RFStacked=StackedRF[0].data
+    RFStacked=np.mean([tr.data for tr in rfstream], axis=0)
     slowness=[]
     for tr in rfstream:
         slow=tr.stats['slowness']
@@ -148,7 +147,7 @@ def hk(rfstream, preonset, H, K, Vp, w1, w2, w3, layer, stack=False):
                 delta= tr.stats.delta
                 rp = kilometer2degrees(1) * tr.stats['slowness']
                 if stack == True:
-                    trdata = StackedRF[0].data
+                    trdata = RFStacked
                     rp = kilometer2degrees(1) * AvgSlow
                 #--------------------------------------
                 term1= ((Ktemp/Vp)**2 - rp**2)**0.5
-- 
2.43.0


From 5293faf9ea80225f319540f1e853a70104584c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 11/14] fix: start no more waveform-fit workers than depths or
 processors

With nproc=25 each worker grows to about 1.1 GB; the system ends one of them
when memory runs out, its depth is never computed and pool.map never returns.
---
 src/rfsed/WaveformFittingMultiproc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rfsed/WaveformFittingMultiproc.py b/src/rfsed/WaveformFittingMultiproc.py
index 1ad4c4b..a9017b7 100644
--- a/src/rfsed/WaveformFittingMultiproc.py
+++ b/src/rfsed/WaveformFittingMultiproc.py
@@ -258,7 +258,11 @@ def run_waveformfitting(nproc, HMoho, ModelParams):
 
     nproc = nproc
     HMoho = HMoho
-    with multiprocessing.Pool(nproc) as pool:
+    # Workers beyond the number of depths or processors only take up memory
+    workers = min(len(HMoho) or 1, multiprocessing.cpu_count())
+    if nproc is not None:
+        workers = min(nproc, workers)
+    with multiprocessing.Pool(workers) as pool:
         inputparams=((inputparams, ModelParams) for inputparams in 
                      itertools.product(HMoho))
         WaveformFitResults=pool.map(WaveformFit_multiproc, inputparams)
-- 
2.43.0


From 083640959177bc7538a69e284fcb58ca4019f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:31 +0000
Subject: [PATCH 12/14] fix: extract windows that hold no sample without
 failing

A window shorter than the sampling interval can lie between two samples: the
slice is then empty and Eqdata[0] raised IndexError. The loop labels every trace.
---
 src/rfsed/ExtractEq.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rfsed/ExtractEq.py b/src/rfsed/ExtractEq.py
index 8474ebd..833d094 100644
--- a/src/rfsed/ExtractEq.py
+++ b/src/rfsed/ExtractEq.py
@@ -126,7 +126,6 @@ def ExtractEq(datapath, filename, catalog, stalat, stalon, Request_window):
                 if UTC(t[0]) >= filestart and UTC(t[1]) <= fileend:
                         Eqdata=read(i, starttime=UTC(t[0]), 
                                         endtime = UTC(t[1]))
-                        Eqdata[0].stats.onset=onset
                         for j in range(len(Eqdata)):
                             Eqdata[j].stats.onset=onset
                         Datast += Eqdata
-- 
2.43.0


From ef3ccbde149a6deedd38eaead4f81e533f908003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 13/14] fix: install examples and tests again after the
 destination was removed

---
 src/rfsed/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rfsed/util.py b/src/rfsed/util.py
index fd7ec1b..c84e906 100644
--- a/src/rfsed/util.py
+++ b/src/rfsed/util.py
@@ -231,6 +231,8 @@ def install_examples(path="./rfsed_examples"):
     >>> install_examples(path='./rfsed_examples')
     """
 
+    # directories created by an earlier copy may have been removed since
+    _dir_util._path_created.clear()
     subpath_example = os.path.join(path, "examples")
 
     examples_path = _pkg_resources.resource_filename(
@@ -277,6 +279,8 @@ def install_rfsed_tests(path="./rfsed_tests"):
     >>> install_examples(path='./rfsed_tests')
     """
 
+    # directories created by an earlier copy may have been removed since
+    _dir_util._path_created.clear()
     examples_path = _pkg_resources.resource_filename(
         "rfsed", "examples/rfsed_tests")
 
-- 
2.43.0


From 95ac4056db1945def1271124d8146524050ea168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:27 +0000
Subject: [PATCH 14/14] fix: event windows for catalogue events without a
 magnitude

The magnitude was read from every event although nothing uses it, so a
catalogue with an event that lists no magnitude could not be processed.
---
 src/rfsed/ExtractEq.py          | 1 -
 src/rfsed/ExtractEqMultiproc.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/rfsed/ExtractEq.py b/src/rfsed/ExtractEq.py
index 833d094..50ffc4e 100644
--- a/src/rfsed/ExtractEq.py
+++ b/src/rfsed/ExtractEq.py
@@ -99,7 +99,6 @@ def ExtractEq(datapath, filename, catalog, stalat, stalon, Request_window):
         eqtime = i.origins[0].time
         eqlat = i.origins[0].latitude
         eqlon = i.origins[0].longitude
-        eqmag = i.magnitudes[0].mag
         eqdepth = (i.origins[0].depth)/1000
         distm,baz,az  = gps2dist_azimuth(stalat, stalon, eqlat, eqlon)
         distkm = distm/1000
diff --git a/src/rfsed/ExtractEqMultiproc.py b/src/rfsed/ExtractEqMultiproc.py
index 691a2b0..4b15e45 100644
--- a/src/rfsed/ExtractEqMultiproc.py
+++ b/src/rfsed/ExtractEqMultiproc.py
@@ -119,7 +119,6 @@ def Eq_times(catalog):
     eqtime = catalog.origins[0].time
     eqlat = catalog.origins[0].latitude
     eqlon = catalog.origins[0].longitude
-    eqmag = catalog.magnitudes[0].mag
     eqdepth = (catalog.origins[0].depth)/1000
     distm,baz,az  = gps2dist_azimuth(stalat, stalon, eqlat, eqlon)
     distkm = distm/1000
-- 
2.43.0

