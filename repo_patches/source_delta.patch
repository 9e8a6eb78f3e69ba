From e53591d297c0bfae1f3d90d78528a633d8e815c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 01/18] fix: convert strided complex binned types with the
 right carry stride

---
 src/binned/ccmconv_sub.c | 4 ++--
 src/binned/zzmconv_sub.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binned/ccmconv_sub.c b/src/binned/ccmconv_sub.c
index 20bf1d6..7ecafa2 100644
--- a/src/binned/ccmconv_sub.c
+++ b/src/binned/ccmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_ccmconv_sub(const int fold, const float *priX, const int incpriX, const float *carX, const int inccarX, void *conv) {
-  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
diff --git a/src/binned/zzmconv_sub.c b/src/binned/zzmconv_sub.c
index 0baccc1..c4f73c7 100644
--- a/src/binned/zzmconv_sub.c
+++ b/src/binned/zzmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_zzmconv_sub(const int fold, const double *priX, const int incpriX, const double *carX, const int inccarX, void *conv) {
-  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
-- 
2.43.0


From 92d35fe18ef6c012c0f75d83c0fa0dbcc406a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 02/18] fix: add every slot of complex binned types in the
 ZBZBADD reduction

---
 src/binnedMPI/ZBZBADD.ccog | 102 ++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 51 deletions(-)

diff --git a/src/binnedMPI/ZBZBADD.ccog b/src/binnedMPI/ZBZBADD.ccog
index 7441faf..03ea492 100644
--- a/src/binnedMPI/ZBZBADD.ccog
+++ b/src/binnedMPI/ZBZBADD.ccog
@@ -10,208 +10,208 @@ import cog
 from scripts import terminal
 for fold in range(2, terminal.get_dimaxindex() + 1):
   cog.outl("static void binnedMPI_zbzbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
-  cog.outl("  binned_dbdbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
+  cog.outl("  binned_zbzbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
   cog.outl("")
 ]]]*/
 static void binnedMPI_zbzbadd_2(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_3(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_4(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_5(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_6(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_7(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_8(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_9(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_10(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_11(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_12(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_13(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_14(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_15(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_16(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_17(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_18(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_19(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_20(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_22(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_23(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_24(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_25(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_26(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_27(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_28(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_29(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_30(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_31(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_32(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_33(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_34(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_35(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_36(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_37(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_38(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_39(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_40(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_41(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_42(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_43(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_44(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_45(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_46(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_47(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_48(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_49(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_50(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_51(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 //[[[end]]]
-- 
2.43.0


From 6464ae5b51986e55394b1a6b1c8dafc620a5decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 03/18] fix: store the merged scale in the scaled sum of
 squares reductions

---
 src/binnedMPI/DBDBADDSQ.ccog | 2 +-
 src/binnedMPI/SBSBADDSQ.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedMPI/DBDBADDSQ.ccog b/src/binnedMPI/DBDBADDSQ.ccog
index 00fd85c..6685a7c 100644
--- a/src/binnedMPI/DBDBADDSQ.ccog
+++ b/src/binnedMPI/DBDBADDSQ.ccog
@@ -9,7 +9,7 @@
 static inline void dbdbaddsqv(const int fold, const int N, const double *X, double *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
   }
 }
 
diff --git a/src/binnedMPI/SBSBADDSQ.ccog b/src/binnedMPI/SBSBADDSQ.ccog
index 20e0137..b531bb9 100644
--- a/src/binnedMPI/SBSBADDSQ.ccog
+++ b/src/binnedMPI/SBSBADDSQ.ccog
@@ -8,7 +8,7 @@
 static inline void sbsbaddsqv(const int fold, const int N, const float *X, float *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
   }
 }
 
-- 
2.43.0


From bd547a9b29bd9c25af6f5e8d23700420b5d5b786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 04/18] fix: provide the binned MPI reductions for the largest
 supported fold

---
 src/binnedMPI/CBCBADD.ccog   | 12 ++++++++++--
 src/binnedMPI/DBDBADD.ccog   | 12 ++++++++++--
 src/binnedMPI/DBDBADDSQ.ccog | 12 ++++++++++--
 src/binnedMPI/SBSBADD.ccog   | 12 ++++++++++--
 src/binnedMPI/SBSBADDSQ.ccog | 12 ++++++++++--
 src/binnedMPI/ZBZBADD.ccog   | 12 ++++++++++--
 6 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/binnedMPI/CBCBADD.ccog b/src/binnedMPI/CBCBADD.ccog
index 0cb62a0..b6d987f 100644
--- a/src/binnedMPI/CBCBADD.ccog
+++ b/src/binnedMPI/CBCBADD.ccog
@@ -9,7 +9,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_simaxindex() + 1):
+for fold in range(2, terminal.get_simaxfold() + 1):
   cog.outl("static void binnedMPI_cbcbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_cbcbaddv({}, *len, (float_complex_binned*)invec, 1, (float_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -91,6 +91,10 @@ static void binnedMPI_cbcbadd_20(void *invec, void *inoutvec, int *len, MPI_Data
   binned_cbcbaddv(20, *len, (float_complex_binned*)invec, 1, (float_complex_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_cbcbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_cbcbaddv(21, *len, (float_complex_binned*)invec, 1, (float_complex_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_SBMAXFOLD + 1];
@@ -120,7 +124,7 @@ MPI_Op binnedMPI_CBCBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_simaxindex() + 1):
+      for fold in range(2, terminal.get_simaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_cbcbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -202,6 +206,10 @@ MPI_Op binnedMPI_CBCBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_cbcbadd_20, 1, ops + 20);
         break;
 
+      case 21:
+        rc = MPI_Op_create(&binnedMPI_cbcbadd_21, 1, ops + 21);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/DBDBADD.ccog b/src/binnedMPI/DBDBADD.ccog
index 7d545b0..4bcfce4 100644
--- a/src/binnedMPI/DBDBADD.ccog
+++ b/src/binnedMPI/DBDBADD.ccog
@@ -9,7 +9,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_dimaxindex() + 1):
+for fold in range(2, terminal.get_dimaxfold() + 1):
   cog.outl("static void binnedMPI_dbdbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_dbdbaddv({}, *len, (double_binned*)invec, 1, (double_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -215,6 +215,10 @@ static void binnedMPI_dbdbadd_51(void *invec, void *inoutvec, int *len, MPI_Data
   binned_dbdbaddv(51, *len, (double_binned*)invec, 1, (double_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_dbdbadd_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_dbdbaddv(52, *len, (double_binned*)invec, 1, (double_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_DBMAXFOLD + 1];
@@ -244,7 +248,7 @@ MPI_Op binnedMPI_DBDBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_dimaxindex() + 1):
+      for fold in range(2, terminal.get_dimaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_dbdbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -450,6 +454,10 @@ MPI_Op binnedMPI_DBDBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_dbdbadd_51, 1, ops + 51);
         break;
 
+      case 52:
+        rc = MPI_Op_create(&binnedMPI_dbdbadd_52, 1, ops + 52);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/DBDBADDSQ.ccog b/src/binnedMPI/DBDBADDSQ.ccog
index 6685a7c..774d537 100644
--- a/src/binnedMPI/DBDBADDSQ.ccog
+++ b/src/binnedMPI/DBDBADDSQ.ccog
@@ -16,7 +16,7 @@ static inline void dbdbaddsqv(const int fold, const int N, const double *X, doub
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_dimaxindex() + 1):
+for fold in range(2, terminal.get_dimaxfold() + 1):
   cog.outl("static void binnedMPI_dbdbaddsq_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  dbdbaddsqv({}, *len, (double*)invec, (double*)inoutvec);".format(fold))
   cog.outl("}")
@@ -222,6 +222,10 @@ static void binnedMPI_dbdbaddsq_51(void *invec, void *inoutvec, int *len, MPI_Da
   dbdbaddsqv(51, *len, (double*)invec, (double*)inoutvec);
 }
 
+static void binnedMPI_dbdbaddsq_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  dbdbaddsqv(52, *len, (double*)invec, (double*)inoutvec);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_DBMAXFOLD + 1];
@@ -253,7 +257,7 @@ MPI_Op binnedMPI_DBDBADDSQ(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_dimaxindex() + 1):
+      for fold in range(2, terminal.get_dimaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_dbdbaddsq_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -459,6 +463,10 @@ MPI_Op binnedMPI_DBDBADDSQ(const int fold){
         rc = MPI_Op_create(&binnedMPI_dbdbaddsq_51, 1, ops + 51);
         break;
 
+      case 52:
+        rc = MPI_Op_create(&binnedMPI_dbdbaddsq_52, 1, ops + 52);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/SBSBADD.ccog b/src/binnedMPI/SBSBADD.ccog
index e07c624..ac1f426 100644
--- a/src/binnedMPI/SBSBADD.ccog
+++ b/src/binnedMPI/SBSBADD.ccog
@@ -8,7 +8,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_simaxindex() + 1):
+for fold in range(2, terminal.get_simaxfold() + 1):
   cog.outl("static void binnedMPI_sbsbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_sbsbaddv({}, *len, (float_binned*)invec, 1, (float_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -90,6 +90,10 @@ static void binnedMPI_sbsbadd_20(void *invec, void *inoutvec, int *len, MPI_Data
   binned_sbsbaddv(20, *len, (float_binned*)invec, 1, (float_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_sbsbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_sbsbaddv(21, *len, (float_binned*)invec, 1, (float_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_SBMAXFOLD + 1];
@@ -119,7 +123,7 @@ MPI_Op binnedMPI_SBSBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_simaxindex() + 1):
+      for fold in range(2, terminal.get_simaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_sbsbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -201,6 +205,10 @@ MPI_Op binnedMPI_SBSBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_sbsbadd_20, 1, ops + 20);
         break;
 
+      case 21:
+        rc = MPI_Op_create(&binnedMPI_sbsbadd_21, 1, ops + 21);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/SBSBADDSQ.ccog b/src/binnedMPI/SBSBADDSQ.ccog
index b531bb9..c556d40 100644
--- a/src/binnedMPI/SBSBADDSQ.ccog
+++ b/src/binnedMPI/SBSBADDSQ.ccog
@@ -15,7 +15,7 @@ static inline void sbsbaddsqv(const int fold, const int N, const float *X, float
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_simaxindex() + 1):
+for fold in range(2, terminal.get_simaxfold() + 1):
   cog.outl("static void binnedMPI_sbsbaddsq_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  sbsbaddsqv({}, *len, (float*)invec, (float*)inoutvec);".format(fold))
   cog.outl("}")
@@ -97,6 +97,10 @@ static void binnedMPI_sbsbaddsq_20(void *invec, void *inoutvec, int *len, MPI_Da
   sbsbaddsqv(20, *len, (float*)invec, (float*)inoutvec);
 }
 
+static void binnedMPI_sbsbaddsq_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  sbsbaddsqv(21, *len, (float*)invec, (float*)inoutvec);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_SBMAXFOLD + 1];
@@ -128,7 +132,7 @@ MPI_Op binnedMPI_SBSBADDSQ(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_simaxindex() + 1):
+      for fold in range(2, terminal.get_simaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_sbsbaddsq_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -210,6 +214,10 @@ MPI_Op binnedMPI_SBSBADDSQ(const int fold){
         rc = MPI_Op_create(&binnedMPI_sbsbaddsq_20, 1, ops + 20);
         break;
 
+      case 21:
+        rc = MPI_Op_create(&binnedMPI_sbsbaddsq_21, 1, ops + 21);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/ZBZBADD.ccog b/src/binnedMPI/ZBZBADD.ccog
index 03ea492..4939355 100644
--- a/src/binnedMPI/ZBZBADD.ccog
+++ b/src/binnedMPI/ZBZBADD.ccog
@@ -8,7 +8,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_dimaxindex() + 1):
+for fold in range(2, terminal.get_dimaxfold() + 1):
   cog.outl("static void binnedMPI_zbzbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_zbzbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -214,6 +214,10 @@ static void binnedMPI_zbzbadd_51(void *invec, void *inoutvec, int *len, MPI_Data
   binned_zbzbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_zbzbadd_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_zbzbaddv(52, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_DBMAXFOLD + 1];
@@ -243,7 +247,7 @@ MPI_Op binnedMPI_ZBZBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_dimaxindex() + 1):
+      for fold in range(2, terminal.get_dimaxfold() + 1):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_zbzbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -449,6 +453,10 @@ MPI_Op binnedMPI_ZBZBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_zbzbadd_51, 1, ops + 51);
         break;
 
+      case 52:
+        rc = MPI_Op_create(&binnedMPI_zbzbadd_52, 1, ops + 52);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
-- 
2.43.0


From a50f35621b43d47dcc49b8e958b29bd42f95a848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 05/18] fix: release the temporary when adding a smaller-scaled
 sum of squares

---
 src/binned/dmdmaddsq.c | 3 +++
 src/binned/smsmaddsq.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/binned/dmdmaddsq.c b/src/binned/dmdmaddsq.c
index 5a3b854..c068288 100644
--- a/src/binned/dmdmaddsq.c
+++ b/src/binned/dmdmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -36,6 +38,7 @@ double binned_dmdmaddsq(const int fold, const double scaleX, const double *priX,
     binned_dmdmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
diff --git a/src/binned/smsmaddsq.c b/src/binned/smsmaddsq.c
index 006c6ac..b48d124 100644
--- a/src/binned/smsmaddsq.c
+++ b/src/binned/smsmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -37,6 +39,7 @@ float binned_smsmaddsq(const int fold, const float scaleX, const float *priX, co
     binned_smsmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
-- 
2.43.0


From ba203a07ca74cbd10bb18d2f8bb6f6b8595ce8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 06/18] fix: keep complex dot product blocks within the
 endurance

Each element of a complex dot product deposits two products into every slot,
so a block may hold at most half the endurance between renormalizations.
---
 src/binnedBLAS/cmcdotc.ccog    |  4 ++--
 src/binnedBLAS/cmcdotu.ccog    |  4 ++--
 src/binnedBLAS/zmzdotc.ccog    |  4 ++--
 src/binnedBLAS/zmzdotu.ccog    |  4 ++--
 src/default_args.json          |  8 ++++----
 src/params.json                | 16 ++++++++--------
 src/tuned_args.json            |  8 ++++----
 src/tuned_args_peters_mac.json |  8 ++++----
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 9eddafc..b732dda 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -20,7 +20,7 @@ cog.out(str(code_block))
 
 cog.outl()
 
-cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, terminal.get_siendurance(), terminal.get_siendurance(), ["bench_rcdotc_fold_{}".format(terminal.get_sidefaultfold())]), cog.inFile, args, params, mode))
+cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, terminal.get_siendurance()//2, terminal.get_siendurance()//2, ["bench_rcdotc_fold_{}".format(terminal.get_sidefaultfold())]), cog.inFile, args, params, mode))
 ]]]*/
 #if (defined(__AVX__) && !defined(reproBLAS_no__AVX__))
   #include <immintrin.h>
@@ -33,7 +33,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, term
 
 #endif
 
-#define N_block_MAX 512
+#define N_block_MAX 256
 //[[[end]]]
 
 /**
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index d1b256d..7f95446 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -20,7 +20,7 @@ cog.out(str(code_block))
 
 cog.outl()
 
-cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, terminal.get_siendurance(), terminal.get_siendurance(), ["bench_rcdotu_fold_{}".format(terminal.get_sidefaultfold())]), cog.inFile, args, params, mode))
+cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, terminal.get_siendurance()//2, terminal.get_siendurance()//2, ["bench_rcdotu_fold_{}".format(terminal.get_sidefaultfold())]), cog.inFile, args, params, mode))
 ]]]*/
 #if (defined(__AVX__) && !defined(reproBLAS_no__AVX__))
   #include <immintrin.h>
@@ -33,7 +33,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, term
 
 #endif
 
-#define N_block_MAX 512
+#define N_block_MAX 256
 //[[[end]]]
 
 /**
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 2200f3a..14c51c0 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -20,7 +20,7 @@ cog.out(str(code_block))
 
 cog.outl()
 
-cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, terminal.get_diendurance(), terminal.get_diendurance(), ["bench_rzdotc_fold_{}".format(terminal.get_didefaultfold())]), cog.inFile, args, params, mode))
+cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, terminal.get_diendurance()//2, terminal.get_diendurance()//2, ["bench_rzdotc_fold_{}".format(terminal.get_didefaultfold())]), cog.inFile, args, params, mode))
 ]]]*/
 #if (defined(__AVX__) && !defined(reproBLAS_no__AVX__))
   #include <immintrin.h>
@@ -33,7 +33,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, term
 
 #endif
 
-#define N_block_MAX 2048
+#define N_block_MAX 1024
 //[[[end]]]
 
 /**
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index cb2b75f..1feb367 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -20,7 +20,7 @@ cog.out(str(code_block))
 
 cog.outl()
 
-cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, terminal.get_diendurance(), terminal.get_diendurance(), ["bench_rzdotu_fold_{}".format(terminal.get_didefaultfold())]), cog.inFile, args, params, mode))
+cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, terminal.get_diendurance()//2, terminal.get_diendurance()//2, ["bench_rzdotu_fold_{}".format(terminal.get_didefaultfold())]), cog.inFile, args, params, mode))
 ]]]*/
 #if (defined(__AVX__) && !defined(reproBLAS_no__AVX__))
   #include <immintrin.h>
@@ -33,7 +33,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, term
 
 #endif
 
-#define N_block_MAX 2048
+#define N_block_MAX 1024
 //[[[end]]]
 
 /**
diff --git a/src/default_args.json b/src/default_args.json
index e20a431..164b11f 100644
--- a/src/default_args.json
+++ b/src/default_args.json
@@ -113,8 +113,8 @@
   "cdepositSum_max_unroll_width_SSE_fold_2": 1,
   "cdepositSum_max_unroll_width_SSE_fold_3": 1,
   "cdepositSum_max_unroll_width_SSE_fold_4": 1,
-  "cmcdotc_block_size_N_block_MAX": 512,
-  "cmcdotu_block_size_N_block_MAX": 512,
+  "cmcdotc_block_size_N_block_MAX": 256,
+  "cmcdotu_block_size_N_block_MAX": 256,
   "cmcsum_block_size_N_block_MAX": 512,
   "damax_max_unroll_width_AVX": 4,
   "damax_max_unroll_width_SISD": 1,
@@ -668,7 +668,7 @@
   "zdepositSum_max_unroll_width_SSE_fold_2": 1,
   "zdepositSum_max_unroll_width_SSE_fold_3": 1,
   "zdepositSum_max_unroll_width_SSE_fold_4": 1,
-  "zmzdotc_block_size_N_block_MAX": 2048,
-  "zmzdotu_block_size_N_block_MAX": 2048,
+  "zmzdotc_block_size_N_block_MAX": 1024,
+  "zmzdotu_block_size_N_block_MAX": 1024,
   "zmzsum_block_size_N_block_MAX": 2048
 }
\ No newline at end of file
diff --git a/src/params.json b/src/params.json
index 07c7f7b..01aec74 100644
--- a/src/params.json
+++ b/src/params.json
@@ -7066,17 +7066,17 @@
       ]
     },
     "cmcdotc_block_size_N_block_MAX": {
-      "default": 512,
+      "default": 256,
       "flavor": "poweroftwo",
-      "maximum": 512,
+      "maximum": 256,
       "minimum": 32,
       "name": "cmcdotc_block_size_N_block_MAX",
       "tags": []
     },
     "cmcdotu_block_size_N_block_MAX": {
-      "default": 512,
+      "default": 256,
       "flavor": "poweroftwo",
-      "maximum": 512,
+      "maximum": 256,
       "minimum": 32,
       "name": "cmcdotu_block_size_N_block_MAX",
       "tags": []
@@ -13999,17 +13999,17 @@
       ]
     },
     "zmzdotc_block_size_N_block_MAX": {
-      "default": 2048,
+      "default": 1024,
       "flavor": "poweroftwo",
-      "maximum": 2048,
+      "maximum": 1024,
       "minimum": 32,
       "name": "zmzdotc_block_size_N_block_MAX",
       "tags": []
     },
     "zmzdotu_block_size_N_block_MAX": {
-      "default": 2048,
+      "default": 1024,
       "flavor": "poweroftwo",
-      "maximum": 2048,
+      "maximum": 1024,
       "minimum": 32,
       "name": "zmzdotu_block_size_N_block_MAX",
       "tags": []
diff --git a/src/tuned_args.json b/src/tuned_args.json
index a2ae826..184669f 100644
--- a/src/tuned_args.json
+++ b/src/tuned_args.json
@@ -113,8 +113,8 @@
   "cbcgemv_block_size_XY_BLOCK": 16384,
   "cbcgemv_block_size_YT_BLOCK": 64,
   "cbcgemv_block_size_Y_BLOCK": 2,
-  "cmcdotc_block_size_N_block_MAX": 512,
-  "cmcdotu_block_size_N_block_MAX": 512,
+  "cmcdotc_block_size_N_block_MAX": 256,
+  "cmcdotu_block_size_N_block_MAX": 256,
   "cmcsum_block_size_N_block_MAX": 512,
   "damax_max_unroll_width_AVX": 32,
   "damax_max_unroll_width_SISD": 1,
@@ -668,7 +668,7 @@
   "zbzgemv_block_size_XY_BLOCK": 16384,
   "zbzgemv_block_size_YT_BLOCK": 64,
   "zbzgemv_block_size_Y_BLOCK": 4,
-  "zmzdotc_block_size_N_block_MAX": 2048,
-  "zmzdotu_block_size_N_block_MAX": 2048,
+  "zmzdotc_block_size_N_block_MAX": 1024,
+  "zmzdotu_block_size_N_block_MAX": 1024,
   "zmzsum_block_size_N_block_MAX": 2048
 }
diff --git a/src/tuned_args_peters_mac.json b/src/tuned_args_peters_mac.json
index 56db8eb..1026456 100644
--- a/src/tuned_args_peters_mac.json
+++ b/src/tuned_args_peters_mac.json
@@ -113,8 +113,8 @@
   "cbcgemv_block_size_XY_BLOCK": 8192,
   "cbcgemv_block_size_YT_BLOCK": 128,
   "cbcgemv_block_size_Y_BLOCK": 1,
-  "cmcdotc_block_size_N_block_MAX": 512,
-  "cmcdotu_block_size_N_block_MAX": 512,
+  "cmcdotc_block_size_N_block_MAX": 256,
+  "cmcdotu_block_size_N_block_MAX": 256,
   "cmcsum_block_size_N_block_MAX": 512,
   "damax_max_unroll_width_AVX": 28,
   "damax_max_unroll_width_SISD": 1,
@@ -668,7 +668,7 @@
   "zbzgemv_block_size_XY_BLOCK": 16384,
   "zbzgemv_block_size_YT_BLOCK": 64,
   "zbzgemv_block_size_Y_BLOCK": 2,
-  "zmzdotc_block_size_N_block_MAX": 2048,
-  "zmzdotu_block_size_N_block_MAX": 2048,
+  "zmzdotc_block_size_N_block_MAX": 1024,
+  "zmzdotu_block_size_N_block_MAX": 1024,
   "zmzsum_block_size_N_block_MAX": 2048
 }
\ No newline at end of file
-- 
2.43.0


From a06c9d3ff40acb2517a342ed7a40cbd2ca151399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 07/18] fix: let only non-finite terms decide infinite sums and
 dot products

When a block held an infinity, the finite terms of that block were added to
the running infinity as well. Before the infinity was reached they could
overflow to an infinity of the opposite sign, so that the result was NaN or
infinite depending on the order and the blocking of the input.
---
 src/binnedBLAS/cmcdotc.ccog | 14 ++++++++++++--
 src/binnedBLAS/cmcdotu.ccog | 14 ++++++++++++--
 src/binnedBLAS/cmcsum.ccog  |  8 ++++++--
 src/binnedBLAS/dmddot.ccog  |  4 +++-
 src/binnedBLAS/dmdsum.ccog  |  4 +++-
 src/binnedBLAS/smsdot.ccog  |  4 +++-
 src/binnedBLAS/smssum.ccog  |  4 +++-
 src/binnedBLAS/zmzdotc.ccog | 14 ++++++++++++--
 src/binnedBLAS/zmzdotu.ccog | 14 ++++++++++++--
 src/binnedBLAS/zmzsum.ccog  |  8 ++++++--
 10 files changed, 72 insertions(+), 16 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index b732dda..900333a 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY])){
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])){
+          priZ[0] += x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY + 1])){
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY])){
+          priZ[1] -= x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index 7f95446..a6f5d56 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY])){
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])){
+          priZ[0] -= x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY + 1])){
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY])){
+          priZ[1] += x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcsum.ccog b/src/binnedBLAS/cmcsum.ccog
index 2c599fd..5ba386c 100644
--- a/src/binnedBLAS/cmcsum.ccog
+++ b/src/binnedBLAS/cmcsum.ccog
@@ -70,12 +70,16 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINFF(x[j * 2 * incX])){
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINFF(x[j * 2 * incX + 1])){
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
diff --git a/src/binnedBLAS/dmddot.ccog b/src/binnedBLAS/dmddot.ccog
index 2f38a52..3fd8f58 100644
--- a/src/binnedBLAS/dmddot.ccog
+++ b/src/binnedBLAS/dmddot.ccog
@@ -69,7 +69,9 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        if (ISNANINF(X[j * incX] * Y[j * incY])){
+          priZ[0] += X[j * incX] * Y[j * incY];
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/dmdsum.ccog b/src/binnedBLAS/dmdsum.ccog
index b67b791..b80ca38 100644
--- a/src/binnedBLAS/dmdsum.ccog
+++ b/src/binnedBLAS/dmdsum.ccog
@@ -67,7 +67,9 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINF(X[j * incX])){
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/smsdot.ccog b/src/binnedBLAS/smsdot.ccog
index 408ef3f..5d3d8fc 100644
--- a/src/binnedBLAS/smsdot.ccog
+++ b/src/binnedBLAS/smsdot.ccog
@@ -69,7 +69,9 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        if (ISNANINFF(X[j * incX] * Y[j * incY])){
+          priZ[0] += X[j * incX] * Y[j * incY];
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/smssum.ccog b/src/binnedBLAS/smssum.ccog
index 330aeaf..12926b9 100644
--- a/src/binnedBLAS/smssum.ccog
+++ b/src/binnedBLAS/smssum.ccog
@@ -68,7 +68,9 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINFF(X[j * incX])){
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 14c51c0..8941105 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY])){
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])){
+          priZ[0] += x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY + 1])){
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY])){
+          priZ[1] -= x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index 1feb367..0b978cf 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY])){
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])){
+          priZ[0] -= x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY + 1])){
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY])){
+          priZ[1] += x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzsum.ccog b/src/binnedBLAS/zmzsum.ccog
index 168c2be..a7c5ea3 100644
--- a/src/binnedBLAS/zmzsum.ccog
+++ b/src/binnedBLAS/zmzsum.ccog
@@ -69,12 +69,16 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINF(x[j * 2 * incX])){
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINF(x[j * 2 * incX + 1])){
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
-- 
2.43.0


From 87eead3e2b8cd49fe3e55c7d4cadf14d8f080b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 08/18] fix: leave infinite and NaN sums of squares unchanged
 when rescaling

A scale ratio whose square overflows turned an infinite sum of squares into
NaN, so an infinite norm depended on how the vector was split.
---
 src/binned/dmdrescale.c | 4 +++-
 src/binned/smsrescale.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/binned/dmdrescale.c b/src/binned/dmdrescale.c
index d18c8b6..2d95d34 100644
--- a/src/binned/dmdrescale.c
+++ b/src/binned/dmdrescale.c
@@ -1,5 +1,7 @@
 #include <binned.h>
 
+#include "../common/common.h"
+
 /**
  * @internal
  * @brief rescale manually specified binned double precision sum of squares
@@ -21,7 +23,7 @@ void binned_dmdrescale(const int fold, const double X, const double scaleY, doub
   int i;
   double rescaleY;
 
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
+  if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINF(priY[0])){
     return;
   }
 
diff --git a/src/binned/smsrescale.c b/src/binned/smsrescale.c
index 508fbf4..2a69dc6 100644
--- a/src/binned/smsrescale.c
+++ b/src/binned/smsrescale.c
@@ -1,5 +1,7 @@
 #include <binned.h>
 
+#include "../common/common.h"
+
 /**
  * @internal
  * @brief rescale manually specified binned single precision sum of squares
@@ -21,7 +23,7 @@ void binned_smsrescale(const int fold, const float X, const float scaleY, float
   int i;
   float rescaleY;
 
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
+  if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINFF(priY[0])){
     return;
   }
 
-- 
2.43.0


From 601ce629edc24d6abc30c3dcceba392437fa6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 09/18] fix: rescale the components of complex sums of squares
 separately

The test for an underflowed slot read with half the stride and only ever
looked at the wrong component.
---
 src/binned/cmsrescale.c | 19 ++-----------------
 src/binned/zmdrescale.c | 19 ++-----------------
 2 files changed, 4 insertions(+), 34 deletions(-)

diff --git a/src/binned/cmsrescale.c b/src/binned/cmsrescale.c
index 628959d..03b50ac 100644
--- a/src/binned/cmsrescale.c
+++ b/src/binned/cmsrescale.c
@@ -18,21 +18,6 @@
  * @date   19 Jun 2015
  */
 void binned_cmsrescale(const int fold, const float X, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
-  int i;
-  float rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_cmsupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      return;
-    }
-  }
+  binned_smsrescale(fold, X, scaleY, priY, incpriY * 2, carY, inccarY * 2);
+  binned_smsrescale(fold, X, scaleY, priY + 1, incpriY * 2, carY + 1, inccarY * 2);
 }
diff --git a/src/binned/zmdrescale.c b/src/binned/zmdrescale.c
index 6c1542a..9c80da9 100644
--- a/src/binned/zmdrescale.c
+++ b/src/binned/zmdrescale.c
@@ -18,21 +18,6 @@
  * @date   1 Jun 2015
  */
 void binned_zmdrescale(const int fold, const double X, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
-  int i;
-  double rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_zmdupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      break;
-    }
-  }
+  binned_dmdrescale(fold, X, scaleY, priY, incpriY * 2, carY, inccarY * 2);
+  binned_dmdrescale(fold, X, scaleY, priY + 1, incpriY * 2, carY + 1, inccarY * 2);
 }
-- 
2.43.0


From e8f240e8eea25f7722151b49524166407f3c89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 10/18] fix: empty the slots that rescaling moves below the
 last bin

Such a slot kept a denormal primary and its old carry instead of an empty
last bin, and the next addition read them as content.
---
 src/binned/dmdrescale.c | 5 ++++-
 src/binned/smsrescale.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/binned/dmdrescale.c b/src/binned/dmdrescale.c
index 2d95d34..b04e303 100644
--- a/src/binned/dmdrescale.c
+++ b/src/binned/dmdrescale.c
@@ -22,6 +22,7 @@
 void binned_dmdrescale(const int fold, const double X, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
   int i;
   double rescaleY;
+  const double min_bin = binned_dmbins(binned_DBMAXINDEX)[0] * 0.5;
 
   if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINF(priY[0])){
     return;
@@ -31,7 +32,9 @@ void binned_dmdrescale(const int fold, const double X, const double scaleY, doub
   rescaleY *= rescaleY;
   for(i = 0; i < fold; i++){
     priY[i * incpriY] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
+    //bins below the last one cannot be represented; they hold nothing
+    if(priY[i * incpriY] < min_bin){
+      priY[i * incpriY] = 0.0;
       binned_dmdupdate(fold - i, 0.0, priY + i * incpriY, incpriY, carY + i * inccarY, inccarY);
       return;
     }
diff --git a/src/binned/smsrescale.c b/src/binned/smsrescale.c
index 2a69dc6..83618f1 100644
--- a/src/binned/smsrescale.c
+++ b/src/binned/smsrescale.c
@@ -22,6 +22,7 @@
 void binned_smsrescale(const int fold, const float X, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
   int i;
   float rescaleY;
+  const float min_bin = binned_smbins(binned_SBMAXINDEX)[0] * 0.5;
 
   if(X == scaleY || X == 0.0 || scaleY == 0.0 || ISNANINFF(priY[0])){
     return;
@@ -31,7 +32,9 @@ void binned_smsrescale(const int fold, const float X, const float scaleY, float
   rescaleY *= rescaleY;
   for(i = 0; i < fold; i++){
     priY[i * incpriY] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
+    //bins below the last one cannot be represented; they hold nothing
+    if(priY[i * incpriY] < min_bin){
+      priY[i * incpriY] = 0.0;
       binned_smsupdate(fold - i, 0.0, priY + i * incpriY, incpriY, carY + i * inccarY, inccarY);
       return;
     }
-- 
2.43.0


From 8b257ad1941acd7a89577a4f8c406594e5c6e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 11/18] fix: read the right length in column-major
 conjugate-transposed complex gemv

---
 src/binnedBLAS/cbcgemv.ccog | 2 +-
 src/binnedBLAS/zbzgemv.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedBLAS/cbcgemv.ccog b/src/binnedBLAS/cbcgemv.ccog
index 22bbbae..95bc96c 100644
--- a/src/binnedBLAS/cbcgemv.ccog
+++ b/src/binnedBLAS/cbcgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, N - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
+                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, M - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
               }
             }
           }
diff --git a/src/binnedBLAS/zbzgemv.ccog b/src/binnedBLAS/zbzgemv.ccog
index e99b85d..bd17bb4 100644
--- a/src/binnedBLAS/zbzgemv.ccog
+++ b/src/binnedBLAS/zbzgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, N - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
+                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, M - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
               }
             }
           }
-- 
2.43.0


From c56e7fee2f42ffba2bae8e2e21a2815437e69a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 12/18] fix: scale by the real part of alpha in column-major
 complex gemm

---
 src/binnedBLAS/cbcgemm.ccog | 8 ++++----
 src/binnedBLAS/zbzgemm.ccog | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/binnedBLAS/cbcgemm.ccog b/src/binnedBLAS/cbcgemm.ccog
index 13365a6..f94071c 100644
--- a/src/binnedBLAS/cbcgemm.ccog
+++ b/src/binnedBLAS/cbcgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
diff --git a/src/binnedBLAS/zbzgemm.ccog b/src/binnedBLAS/zbzgemm.ccog
index 5a9c958..61f245f 100644
--- a/src/binnedBLAS/zbzgemm.ccog
+++ b/src/binnedBLAS/zbzgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
-- 
2.43.0


From a1e9da657b920fdef0d5be702966f15d3ded8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 13/18] fix: publish an MPI datatype only once it is committed

Between creation and commit another thread could be handed the uncommitted
datatype, or replace the one a third thread was about to return; and the flag
could become visible before the handle.
---
 src/binnedMPI/DOUBLE_BINNED.c         | 10 ++++++----
 src/binnedMPI/DOUBLE_BINNED_SCALED.c  | 10 ++++++----
 src/binnedMPI/DOUBLE_COMPLEX_BINNED.c | 10 ++++++----
 src/binnedMPI/FLOAT_BINNED.c          | 10 ++++++----
 src/binnedMPI/FLOAT_BINNED_SCALED.c   | 10 ++++++----
 src/binnedMPI/FLOAT_COMPLEX_BINNED.c  | 10 ++++++----
 6 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/binnedMPI/DOUBLE_BINNED.c b/src/binnedMPI/DOUBLE_BINNED.c
index 917b411..ef684f6 100644
--- a/src/binnedMPI/DOUBLE_BINNED.c
+++ b/src/binnedMPI/DOUBLE_BINNED.c
@@ -25,8 +25,9 @@ static int types_initialized[binned_DBMAXFOLD + 1]; //initializes to 0
  */
 MPI_Datatype binnedMPI_DOUBLE_BINNED(const int fold){
   int rc;
-  if(!types_initialized[fold]){
-    rc = MPI_Type_contiguous(binned_dbnum(fold), MPI_DOUBLE, types + fold);
+  MPI_Datatype type;
+  if(!__atomic_load_n(types_initialized + fold, __ATOMIC_ACQUIRE)){
+    rc = MPI_Type_contiguous(binned_dbnum(fold), MPI_DOUBLE, &type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_contiguous error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -40,7 +41,7 @@ MPI_Datatype binnedMPI_DOUBLE_BINNED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    rc = MPI_Type_commit(types + fold);
+    rc = MPI_Type_commit(&type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_commit error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -50,7 +51,8 @@ MPI_Datatype binnedMPI_DOUBLE_BINNED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    types_initialized[fold] = 1;
+    types[fold] = type;
+    __atomic_store_n(types_initialized + fold, 1, __ATOMIC_RELEASE);
   }
   return types[fold];
 }
diff --git a/src/binnedMPI/DOUBLE_BINNED_SCALED.c b/src/binnedMPI/DOUBLE_BINNED_SCALED.c
index 505f217..9729ad7 100644
--- a/src/binnedMPI/DOUBLE_BINNED_SCALED.c
+++ b/src/binnedMPI/DOUBLE_BINNED_SCALED.c
@@ -25,8 +25,9 @@ static int types_initialized[binned_DBMAXFOLD + 1]; //initializes to 0
  */
 MPI_Datatype binnedMPI_DOUBLE_BINNED_SCALED(const int fold){
   int rc;
-  if(!types_initialized[fold]){
-    rc = MPI_Type_contiguous(binned_dbnum(fold) + 1, MPI_DOUBLE, types + fold);
+  MPI_Datatype type;
+  if(!__atomic_load_n(types_initialized + fold, __ATOMIC_ACQUIRE)){
+    rc = MPI_Type_contiguous(binned_dbnum(fold) + 1, MPI_DOUBLE, &type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_contiguous error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -40,7 +41,7 @@ MPI_Datatype binnedMPI_DOUBLE_BINNED_SCALED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    rc = MPI_Type_commit(types + fold);
+    rc = MPI_Type_commit(&type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_commit error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -50,7 +51,8 @@ MPI_Datatype binnedMPI_DOUBLE_BINNED_SCALED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    types_initialized[fold] = 1;
+    types[fold] = type;
+    __atomic_store_n(types_initialized + fold, 1, __ATOMIC_RELEASE);
   }
   return types[fold];
 }
diff --git a/src/binnedMPI/DOUBLE_COMPLEX_BINNED.c b/src/binnedMPI/DOUBLE_COMPLEX_BINNED.c
index 62f855c..5727db2 100644
--- a/src/binnedMPI/DOUBLE_COMPLEX_BINNED.c
+++ b/src/binnedMPI/DOUBLE_COMPLEX_BINNED.c
@@ -25,8 +25,9 @@ static int types_initialized[binned_DBMAXFOLD + 1]; //initializes to 0
  */
 MPI_Datatype binnedMPI_DOUBLE_COMPLEX_BINNED(const int fold){
   int rc;
-  if(!types_initialized[fold]){
-    rc = MPI_Type_contiguous(binned_zbnum(fold), MPI_DOUBLE, types + fold);
+  MPI_Datatype type;
+  if(!__atomic_load_n(types_initialized + fold, __ATOMIC_ACQUIRE)){
+    rc = MPI_Type_contiguous(binned_zbnum(fold), MPI_DOUBLE, &type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_contiguous error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -40,7 +41,7 @@ MPI_Datatype binnedMPI_DOUBLE_COMPLEX_BINNED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    rc = MPI_Type_commit(types + fold);
+    rc = MPI_Type_commit(&type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_commit error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -50,7 +51,8 @@ MPI_Datatype binnedMPI_DOUBLE_COMPLEX_BINNED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    types_initialized[fold] = 1;
+    types[fold] = type;
+    __atomic_store_n(types_initialized + fold, 1, __ATOMIC_RELEASE);
   }
   return types[fold];
 }
diff --git a/src/binnedMPI/FLOAT_BINNED.c b/src/binnedMPI/FLOAT_BINNED.c
index 1b0f94b..5de99f6 100644
--- a/src/binnedMPI/FLOAT_BINNED.c
+++ b/src/binnedMPI/FLOAT_BINNED.c
@@ -25,8 +25,9 @@ static int types_initialized[binned_SBMAXFOLD + 1]; //initializes to 0
  */
 MPI_Datatype binnedMPI_FLOAT_BINNED(const int fold){
   int rc;
-  if(!types_initialized[fold]){
-    rc = MPI_Type_contiguous(binned_sbnum(fold), MPI_FLOAT, types + fold);
+  MPI_Datatype type;
+  if(!__atomic_load_n(types_initialized + fold, __ATOMIC_ACQUIRE)){
+    rc = MPI_Type_contiguous(binned_sbnum(fold), MPI_FLOAT, &type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_contiguous error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -40,7 +41,7 @@ MPI_Datatype binnedMPI_FLOAT_BINNED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    rc = MPI_Type_commit(types + fold);
+    rc = MPI_Type_commit(&type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_commit error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -50,7 +51,8 @@ MPI_Datatype binnedMPI_FLOAT_BINNED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    types_initialized[fold] = 1;
+    types[fold] = type;
+    __atomic_store_n(types_initialized + fold, 1, __ATOMIC_RELEASE);
   }
   return types[fold];
 }
diff --git a/src/binnedMPI/FLOAT_BINNED_SCALED.c b/src/binnedMPI/FLOAT_BINNED_SCALED.c
index b25263b..f05d49f 100644
--- a/src/binnedMPI/FLOAT_BINNED_SCALED.c
+++ b/src/binnedMPI/FLOAT_BINNED_SCALED.c
@@ -25,8 +25,9 @@ static int types_initialized[binned_SBMAXFOLD + 1]; //initializes to 0
  */
 MPI_Datatype binnedMPI_FLOAT_BINNED_SCALED(const int fold){
   int rc;
-  if(!types_initialized[fold]){
-    rc = MPI_Type_contiguous(binned_sbnum(fold) + 1, MPI_FLOAT, types + fold);
+  MPI_Datatype type;
+  if(!__atomic_load_n(types_initialized + fold, __ATOMIC_ACQUIRE)){
+    rc = MPI_Type_contiguous(binned_sbnum(fold) + 1, MPI_FLOAT, &type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_contiguous error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -40,7 +41,7 @@ MPI_Datatype binnedMPI_FLOAT_BINNED_SCALED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    rc = MPI_Type_commit(types + fold);
+    rc = MPI_Type_commit(&type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_commit error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -50,7 +51,8 @@ MPI_Datatype binnedMPI_FLOAT_BINNED_SCALED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    types_initialized[fold] = 1;
+    types[fold] = type;
+    __atomic_store_n(types_initialized + fold, 1, __ATOMIC_RELEASE);
   }
   return types[fold];
 }
diff --git a/src/binnedMPI/FLOAT_COMPLEX_BINNED.c b/src/binnedMPI/FLOAT_COMPLEX_BINNED.c
index 8c715ba..5070bb8 100644
--- a/src/binnedMPI/FLOAT_COMPLEX_BINNED.c
+++ b/src/binnedMPI/FLOAT_COMPLEX_BINNED.c
@@ -25,8 +25,9 @@ static int types_initialized[binned_SBMAXFOLD + 1]; //initializes to 0
  */
 MPI_Datatype binnedMPI_FLOAT_COMPLEX_BINNED(const int fold){
   int rc;
-  if(!types_initialized[fold]){
-    rc = MPI_Type_contiguous(binned_cbnum(fold), MPI_FLOAT, types + fold);
+  MPI_Datatype type;
+  if(!__atomic_load_n(types_initialized + fold, __ATOMIC_ACQUIRE)){
+    rc = MPI_Type_contiguous(binned_cbnum(fold), MPI_FLOAT, &type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_contiguous error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -40,7 +41,7 @@ MPI_Datatype binnedMPI_FLOAT_COMPLEX_BINNED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    rc = MPI_Type_commit(types + fold);
+    rc = MPI_Type_commit(&type);
     if(rc != MPI_SUCCESS){
       if (rc == MPI_ERR_TYPE) {
         fprintf(stderr, "[%s.%d] ReproBLAS error: MPI_Type_commit error: MPI_ERR_TYPE\n", __FILE__, __LINE__);
@@ -50,7 +51,8 @@ MPI_Datatype binnedMPI_FLOAT_COMPLEX_BINNED(const int fold){
       MPI_Abort(MPI_COMM_WORLD, rc);
       return 0;
     }
-    types_initialized[fold] = 1;
+    types[fold] = type;
+    __atomic_store_n(types_initialized + fold, 1, __ATOMIC_RELEASE);
   }
   return types[fold];
 }
-- 
2.43.0


From 6cf15ce928234b8f37128e4d2c2509375e260d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 14/18] fix: write cog's output to a temporary file and rename
 it when complete

With -o the output was truncated before generation began, and with -r the
template itself was truncated before the new text was written. A generator
error, an unencodable character, a full disk or an interruption left a partial
output, which the next make took for up to date, or destroyed the template.
---
 scripts/cogapp/cogapp.py | 48 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/scripts/cogapp/cogapp.py b/scripts/cogapp/cogapp.py
index 36f4f7b..eaa84ba 100644
--- a/scripts/cogapp/cogapp.py
+++ b/scripts/cogapp/cogapp.py
@@ -6,7 +6,7 @@
 
 from __future__ import absolute_import, print_function
 
-import copy, getopt, hashlib, imp, os, re, shlex, sys, traceback
+import copy, getopt, hashlib, imp, os, re, shlex, shutil, sys, traceback
 from .backward import PY3, StringIO, string_types, to_bytes
 
 __all__ = ['Cog', 'CogUsageError']
@@ -365,6 +365,34 @@ class Cog(Redirectable):
                 mode = "wb"
         return open(fname, mode, **opts)
 
+    def tempFileName(self, fname):
+        """ The file to write instead of fname, so that fname keeps its old
+            contents until the new ones are complete. Returns None if fname
+            has to be written directly (it is a device or a pipe, or it can't
+            be written, in which case opening it gives the right error).
+        """
+        target = os.path.realpath(fname)
+        if os.path.exists(target):
+            if not os.path.isfile(target) or not os.access(target, os.W_OK):
+                return None
+        return "%s.%d.tmp" % (target, os.getpid())
+
+    def finishOutputFile(self, f, fname, temp, complete):
+        """ Close the output file f. If it is complete, it becomes fname,
+            otherwise it is removed.
+        """
+        try:
+            f.close()
+            if temp and complete:
+                target = os.path.realpath(fname)
+                if os.path.exists(target):
+                    shutil.copymode(target, temp)
+                getattr(os, 'replace', os.rename)(temp, target)
+                temp = None
+        finally:
+            if temp and os.path.exists(temp):
+                os.remove(temp)
+
     def openInputFile(self, fname):
         """ Open an input file. """
         if fname == "-":
@@ -391,8 +419,10 @@ class Cog(Redirectable):
         if isinstance(fOut, string_types):
             # Open the output file.
             sFileOut = fOut
-            fOut = fOutToClose = self.openOutputFile(fOut)
+            sFileTemp = self.tempFileName(sFileOut)
+            fOut = fOutToClose = self.openOutputFile(sFileTemp or sFileOut)
 
+        bComplete = False
         try:
             fIn = NumberedFileReader(fIn)
 
@@ -534,11 +564,12 @@ class Cog(Redirectable):
 
             if not bSawCog and self.options.bWarnEmpty:
                 self.showWarning("no cog code found in %s" % sFileIn)
+            bComplete = True
         finally:
             if fInToClose:
                 fInToClose.close()
             if fOutToClose:
-                fOutToClose.close()
+                self.finishOutputFile(fOutToClose, sFileOut, sFileTemp, bComplete)
 
 
     # A regex for non-empty lines, used by suffixLines.
@@ -577,9 +608,14 @@ class Cog(Redirectable):
             else:
                 # Can't write!
                 raise CogError("Can't overwrite %s" % sOldPath)
-        f = self.openOutputFile(sOldPath)
-        f.write(sNewText)
-        f.close()
+        sTemp = self.tempFileName(sOldPath)
+        f = self.openOutputFile(sTemp or sOldPath)
+        bComplete = False
+        try:
+            f.write(sNewText)
+            bComplete = True
+        finally:
+            self.finishOutputFile(f, sOldPath, sTemp, bComplete)
 
     def saveIncludePath(self):
         self.savedInclude = self.options.includePath[:]
-- 
2.43.0


From 221d85f8c952aa49ac81bbde1980d95f1c4ce606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 15/18] fix: --markers on a line of a cog file list also
 changes the end-output pattern

The pattern that recognises checksums and the text written back were derived
from the command line only, so a protected section between other markers was
overwritten after an edit and its end marker replaced by the default one.
---
 scripts/cogapp/cogapp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/cogapp/cogapp.py b/scripts/cogapp/cogapp.py
index eaa84ba..e7c00af 100644
--- a/scripts/cogapp/cogapp.py
+++ b/scripts/cogapp/cogapp.py
@@ -702,6 +702,7 @@ class Cog(Redirectable):
 
         self.options.parseArgs(args[1:])
         self.options.validate()
+        self._fixEndOutputPatterns()
 
         if args[0][0] == '@':
             if self.options.sOutputName:
@@ -711,6 +712,7 @@ class Cog(Redirectable):
             self.processOneFile(args[0])
 
         self.options = saved_options
+        self._fixEndOutputPatterns()
 
     def callableMain(self, argv):
         """ All of command-line cog, but in a callable form.
-- 
2.43.0


From 5e4a19cfd81a888c0354987b2b0cb6ec7a1e7172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 16/18] fix: cog.path of a file does not include the
 directories of files before it

After the first file cog.path was left as the include path, and every later
file added the include path and its own directory to that, so the path a
generator sees depended on which files were generated before.
---
 scripts/cogapp/cogapp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/cogapp/cogapp.py b/scripts/cogapp/cogapp.py
index e7c00af..5a99539 100644
--- a/scripts/cogapp/cogapp.py
+++ b/scripts/cogapp/cogapp.py
@@ -619,11 +619,12 @@ class Cog(Redirectable):
 
     def saveIncludePath(self):
         self.savedInclude = self.options.includePath[:]
+        self.savedCogPath = self.cogmodule.path[:]
         self.savedSysPath = sys.path[:]
 
     def restoreIncludePath(self):
         self.options.includePath = self.savedInclude
-        self.cogmodule.path = self.options.includePath
+        self.cogmodule.path = self.savedCogPath
         sys.path = self.savedSysPath
 
     def addToIncludePath(self, includePath):
-- 
2.43.0


From 7590d140e762c78e9d0e67e88ecbe36c67b9c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:47 +0000
Subject: [PATCH 17/18] fix: keep the compiler from fusing multiplications and
 additions

A build with clang (one of the compilers config.mk offers) on a processor with
fused multiply-add contracted the complex products of matrix routines, so their
results differed from those of a gcc build in the last bits.
---
 mk/config.mk | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mk/config.mk b/mk/config.mk
index 99ff8b9..66945ba 100644
--- a/mk/config.mk
+++ b/mk/config.mk
@@ -116,6 +116,9 @@ else
   CFLAGS += -march=$(strip $(MTARGET_ARCH))
 endif
 
+# Fusing multiplications with additions would make results depend on the compiler and the processor (gcc leaves them alone with -std=c99, other compilers do not).
+CFLAGS += -ffp-contract=off
+
 CALL_PYTHON = PYTHONPATH=$(TOP) $(PYTHON)
 
 # Create cog compiler
-- 
2.43.0


From dcb807723fe8dd44df1cf8b52c1b9e8cc078a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:07 +0000
Subject: [PATCH 18/18] fix: keep the error bound above what underflow can lose

---
 src/binned/dbbound.c | 2 +-
 src/binned/sbbound.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binned/dbbound.c b/src/binned/dbbound.c
index cbdeea4..73d2c2a 100644
--- a/src/binned/dbbound.c
+++ b/src/binned/dbbound.c
@@ -19,5 +19,5 @@
  * @date   31 Jul 2015
  */
 double binned_dbbound(const int fold, const int N, const double X, const double S) {
-  return MAX(fabs(X), ldexp(0.5, DBL_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * DBWIDTH + 1) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
+  return MAX(fabs(X) * ldexp(0.5, (1 - fold) * DBWIDTH + 1), ldexp(0.5, DBL_MIN_EXP - 1)) * N + ((7.0 * DBL_EPSILON) / (1.0 - 6.0 * sqrt(DBL_EPSILON) - 7.0 * DBL_EPSILON)) * fabs(S);
 }
diff --git a/src/binned/sbbound.c b/src/binned/sbbound.c
index 05ca953..7207726 100644
--- a/src/binned/sbbound.c
+++ b/src/binned/sbbound.c
@@ -23,5 +23,5 @@
  * @date   21 May 2015
  */
 float binned_sbbound(const int fold, const int N, const float X, const float S) {
-  return (float)(MAX(fabs((double)X), ldexp(0.5, FLT_MIN_EXP - 1)) * ldexp(0.5, (1 - fold) * SBWIDTH + 1) * N + ((7.0 * FLT_EPSILON) / (1.0 - 6.0 * sqrt((double)FLT_EPSILON) - 7.0 * FLT_EPSILON)) * fabs((double)S));
+  return (float)(MAX(fabs((double)X) * ldexp(0.5, (1 - fold) * SBWIDTH + 1), ldexp(0.5, FLT_MIN_EXP - 1)) * N + ((7.0 * FLT_EPSILON) / (1.0 - 6.0 * sqrt((double)FLT_EPSILON) - 7.0 * FLT_EPSILON)) * fabs((double)S));
 }
-- 
2.43.0

