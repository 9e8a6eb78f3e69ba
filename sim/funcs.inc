F(binned_dbsize)
F(binned_zbsize)
F(binned_sbsbze)
F(binned_cbsize)
F(binned_dballoc)
F(binned_zballoc)
F(binned_sballoc)
F(binned_cballoc)
F(binned_dbnum)
F(binned_zbnum)
F(binned_sbnum)
F(binned_cbnum)
F(binned_dbbound)
F(binned_sbbound)
F(binned_dmbins)
F(binned_smbins)
F(binned_dindex)
F(binned_dmindex)
F(binned_dmindex0)
F(binned_sindex)
F(binned_smindex)
F(binned_smindex0)
F(binned_dmdenorm)
F(binned_zmdenorm)
F(binned_smdenorm)
F(binned_cmdenorm)
F(binned_dbprint)
F(binned_dmprint)
F(binned_zbprint)
F(binned_zmprint)
F(binned_sbprint)
F(binned_smprint)
F(binned_cbprint)
F(binned_cmprint)
F(binned_dbdbset)
F(binned_dmdmset)
F(binned_zbzbset)
F(binned_zmzmset)
F(binned_zbdbset)
F(binned_zmdmset)
F(binned_sbsbset)
F(binned_smsmset)
F(binned_cbcbset)
F(binned_cmcmset)
F(binned_cbsbset)
F(binned_cmsmset)
F(binned_dbsetzero)
F(binned_dmsetzero)
F(binned_zbsetzero)
F(binned_zmsetzero)
F(binned_sbsetzero)
F(binned_smsetzero)
F(binned_cbsetzero)
F(binned_cmsetzero)
F(binned_dbdbadd)
F(binned_dmdmadd)
F(binned_zbzbadd)
F(binned_zmzmadd)
F(binned_sbsbadd)
F(binned_smsmadd)
F(binned_cbcbadd)
F(binned_cmcmadd)
F(binned_dbdbaddv)
F(binned_zbzbaddv)
F(binned_sbsbaddv)
F(binned_cbcbaddv)
F(binned_dbdadd)
F(binned_dmdadd)
F(binned_zbzadd)
F(binned_zmzadd)
F(binned_sbsadd)
F(binned_smsadd)
F(binned_cbcadd)
F(binned_cmcadd)
F(binned_dbdupdate)
F(binned_dmdupdate)
F(binned_zbzupdate)
F(binned_zmzupdate)
F(binned_zbdupdate)
F(binned_zmdupdate)
F(binned_sbsupdate)
F(binned_smsupdate)
F(binned_cbcupdate)
F(binned_cmcupdate)
F(binned_cbsupdate)
F(binned_cmsupdate)
F(binned_dbddeposit)
F(binned_dmddeposit)
F(binned_zbzdeposit)
F(binned_zmzdeposit)
F(binned_sbsdeposit)
F(binned_smsdeposit)
F(binned_cbcdeposit)
F(binned_cmcdeposit)
F(binned_dbrenorm)
F(binned_dmrenorm)
F(binned_zbrenorm)
F(binned_zmrenorm)
F(binned_sbrenorm)
F(binned_smrenorm)
F(binned_cbrenorm)
F(binned_cmrenorm)
F(binned_dbdconv)
F(binned_dmdconv)
F(binned_zbzconv)
F(binned_zmzconv)
F(binned_sbsconv)
F(binned_smsconv)
F(binned_cbcconv)
F(binned_cmcconv)
F(binned_ddbconv)
F(binned_ddmconv)
F(binned_zzbconv_sub)
F(binned_zzmconv_sub)
F(binned_ssbconv)
F(binned_ssmconv)
F(binned_ccbconv_sub)
F(binned_ccmconv_sub)
F(binned_dbnegate)
F(binned_dmnegate)
F(binned_zbnegate)
F(binned_zmnegate)
F(binned_sbnegate)
F(binned_smnegate)
F(binned_cbnegate)
F(binned_cmnegate)
F(binned_dscale)
F(binned_sscale)
F(binned_dmdrescale)
F(binned_zmdrescale)
F(binned_smsrescale)
F(binned_cmsrescale)
F(binned_dmdmaddsq)
F(binned_dbdbaddsq)
F(binned_smsmaddsq)
F(binned_sbsbaddsq)
F(binned_ufp)
F(binned_ufpf)
F(binnedBLAS_samax)
F(binnedBLAS_damax)
F(binnedBLAS_camax_sub)
F(binnedBLAS_zamax_sub)
F(binnedBLAS_samaxm)
F(binnedBLAS_damaxm)
F(binnedBLAS_camaxm_sub)
F(binnedBLAS_zamaxm_sub)
F(binnedBLAS_dbdsum)
F(binnedBLAS_dmdsum)
F(binnedBLAS_dbdasum)
F(binnedBLAS_dmdasum)
F(binnedBLAS_dbdssq)
F(binnedBLAS_dmdssq)
F(binnedBLAS_dbddot)
F(binnedBLAS_dmddot)
F(binnedBLAS_zbzsum)
F(binnedBLAS_zmzsum)
F(binnedBLAS_dbzasum)
F(binnedBLAS_dmzasum)
F(binnedBLAS_dbzssq)
F(binnedBLAS_dmzssq)
F(binnedBLAS_zbzdotu)
F(binnedBLAS_zmzdotu)
F(binnedBLAS_zbzdotc)
F(binnedBLAS_zmzdotc)
F(binnedBLAS_sbssum)
F(binnedBLAS_smssum)
F(binnedBLAS_sbsasum)
F(binnedBLAS_smsasum)
F(binnedBLAS_sbsssq)
F(binnedBLAS_smsssq)
F(binnedBLAS_sbsdot)
F(binnedBLAS_smsdot)
F(binnedBLAS_cbcsum)
F(binnedBLAS_cmcsum)
F(binnedBLAS_sbcasum)
F(binnedBLAS_smcasum)
F(binnedBLAS_sbcssq)
F(binnedBLAS_smcssq)
F(binnedBLAS_cbcdotu)
F(binnedBLAS_cmcdotu)
F(binnedBLAS_cbcdotc)
F(binnedBLAS_cmcdotc)
F(binnedBLAS_dbdgemv)
F(binnedBLAS_dbdgemm)
F(binnedBLAS_sbsgemv)
F(binnedBLAS_sbsgemm)
F(binnedBLAS_zbzgemv)
F(binnedBLAS_zbzgemm)
F(binnedBLAS_cbcgemv)
F(binnedBLAS_cbcgemm)
F(reproBLAS_rdsum)
F(reproBLAS_rdasum)
F(reproBLAS_rdnrm2)
F(reproBLAS_rddot)
F(reproBLAS_rsdot)
F(reproBLAS_rsasum)
F(reproBLAS_rssum)
F(reproBLAS_rsnrm2)
F(reproBLAS_rzsum_sub)
F(reproBLAS_rdzasum)
F(reproBLAS_rdznrm2)
F(reproBLAS_rzdotc_sub)
F(reproBLAS_rzdotu_sub)
F(reproBLAS_rcsum_sub)
F(reproBLAS_rscasum)
F(reproBLAS_rscnrm2)
F(reproBLAS_rcdotc_sub)
F(reproBLAS_rcdotu_sub)
F(reproBLAS_rdgemv)
F(reproBLAS_rdgemm)
F(reproBLAS_rsgemv)
F(reproBLAS_rsgemm)
F(reproBLAS_rzgemv)
F(reproBLAS_rzgemm)
F(reproBLAS_rcgemv)
F(reproBLAS_rcgemm)
F(reproBLAS_dsum)
F(reproBLAS_dasum)
F(reproBLAS_dnrm2)
F(reproBLAS_ddot)
F(reproBLAS_sdot)
F(reproBLAS_sasum)
F(reproBLAS_ssum)
F(reproBLAS_snrm2)
F(reproBLAS_zsum_sub)
F(reproBLAS_dzasum)
F(reproBLAS_dznrm2)
F(reproBLAS_zdotc_sub)
F(reproBLAS_zdotu_sub)
F(reproBLAS_csum_sub)
F(reproBLAS_scasum)
F(reproBLAS_scnrm2)
F(reproBLAS_cdotc_sub)
F(reproBLAS_cdotu_sub)
F(reproBLAS_dgemv)
F(reproBLAS_dgemm)
F(reproBLAS_sgemv)
F(reproBLAS_sgemm)
F(reproBLAS_zgemv)
F(reproBLAS_zgemm)
F(reproBLAS_cgemv)
F(reproBLAS_cgemm)
F(binnedMPI_DBDBADD)
F(binnedMPI_ZBZBADD)
F(binnedMPI_SBSBADD)
F(binnedMPI_CBCBADD)
F(binnedMPI_DBDBADDSQ)
F(binnedMPI_SBSBADDSQ)
F(binnedMPI_DOUBLE_BINNED)
F(binnedMPI_DOUBLE_COMPLEX_BINNED)
F(binnedMPI_FLOAT_BINNED)
F(binnedMPI_FLOAT_COMPLEX_BINNED)
F(binnedMPI_DOUBLE_BINNED_SCALED)
F(binnedMPI_FLOAT_BINNED_SCALED)
