From 462425ad618bb3e1ff6eb27d6ec02690c6bff797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 01/26] fix: accumulate repeated products under the product,
 not the last reactant

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index aa72dae..41aaedb 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -279,7 +279,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             species_hess_gain_data[product]=[]
                         species_hess_gain_data[product].append(equation_step) #so from this we can work out a dx/dy
                         # -- Update loss dictionaries -- 
-                        if equation_step in gain_dict[reactant]:
+                        if equation_step in gain_dict[product]:
                             gain_dict[product][equation_step]+=stoich
                         else:
                             gain_dict[product][equation_step]=stoich
-- 
2.43.0


From b9b664c497b02609c55a6da7d8fc33dc52bfd22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 02/26] fix: Fortran loss/gain used stoichiometry+1 instead of
 the stoichiometry

---
 Parse_eqn_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 41aaedb..c08c5e5 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2601,13 +2601,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('-1.0*r(%s)'%(equation_step+1))
                             else:
-                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         else:
                             if stoich==1:
                                 f.write('-r(%s)'%(equation_step+1))
                             else:
-                                f.write('-r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         flag+=1
                         
@@ -2624,13 +2624,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         else:
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         flag+=1
                         
-- 
2.43.0


From ae07845447a443437de47dfc16a7a497d09b6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 03/26] fix: count a repeated reactant once in the reactant
 product (HO2 + HO2 gave y**4)

---
 Parse_eqn_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index c08c5e5..bfb6ac7 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -213,7 +213,9 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
             #Now store the stoichiometry and reactant in dictionaries
             if reactant not in ['hv']:
                 stoich_dict[equation_step][reactant_step]=stoich
-                rate_dict_reactants[equation_step][reactant_step]=reactant 
+                # A reactant written more than once is listed once; its total stoichiometry is held in loss_dict
+                if reactant not in rate_dict_reactants[equation_step].values():
+                    rate_dict_reactants[equation_step][reactant_step]=reactant 
                 # -- Update species dictionaries --
                 if reactant not in species_dict.values(): #check to see if entry already exists
                     species_dict[species_step]=reactant # useful for checking all parsed species
-- 
2.43.0


From fbeb0f57495767a1981dc5ef6b500a62cb620e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 04/26] fix: Jacobian entries ignored the row species'
 stoichiometry and fractional reactant orders

---
 Parse_eqn_file.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index bfb6ac7..4d92be0 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2827,12 +2827,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('-%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -2853,6 +2853,9 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('-1.0*r(%s)'%(equation+1))
+                            # scale by the stoichiometry of the species whose derivative this is
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -2903,12 +2906,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('+%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -2929,6 +2932,9 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('+1.0*r(%s)'%(equation+1))
+                            # scale by the stoichiometry of the species whose derivative this is
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
@@ -3091,12 +3097,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('-%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3117,6 +3123,9 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('-1.0*r[%s]'%(equation))
+                            # scale by the stoichiometry of the species whose derivative this is
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -3167,12 +3176,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('+%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3193,6 +3202,9 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('+1.0*r[%s]'%(equation))
+                            # scale by the stoichiometry of the species whose derivative this is
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
-- 
2.43.0


From f10286fac6f5da17aa491742d4d84c412aa01474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 05/26] fix: a coefficient before a name with digits, or
 separated by a space, garbled the species name

---
 Parse_eqn_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 4d92be0..4c711bd 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -140,9 +140,9 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
         equation_full=re.sub('\t','',equation_full)
         equation=equation_full.split(':',1)[0].split('=',1) #split the line into reactants and products
         reactants=equation[0].split('+') # extract content to the left of the previous split [reactants]
-        reactants= [x.strip(' ') for x in reactants] #strip away all whitespace
+        reactants= [''.join(x.split()) for x in reactants] #strip away all whitespace
         products=equation[1].split('+') # extract content to the right of the previous split [products]
-        products = [x.strip(' ') for x in products] #strip away all whitespace
+        products = [''.join(x.split()) for x in products] #strip away all whitespace
         #pdb.set_trace()
         #At the moment, we have not seperated the reactant/product from its stochiometric value
         ##rate_full=equation_full.split(':',1)[1].rsplit('\t',1)[1].split(';',1)[0] #pulls out the rate 
@@ -201,7 +201,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                     #in temp[0] away from the original string. Lets assume that we can attach the first
                     #part of the text with the second number in temp. Thus
                     if reactant.index(stoich) == 0 :
-                        reactant=reactant.split(stoich,1)[1]+temp[1]
+                        reactant=reactant.split(stoich,1)[1]
                         stoich=float(stoich)
                     else:
                         stoich=1.0
@@ -260,7 +260,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             #in temp[0] away from the original string. Lets assume that we can attach the first
                             #part of the text with the second number in temp. Thus
                             if product.index(stoich) == 0 :
-                                product=product.split(stoich,1)[1]+temp[1]
+                                product=product.split(stoich,1)[1]
                                 stoich=float(stoich)
                             else:
                                 stoich=1.0
-- 
2.43.0


From 7b2922e92b111af73c40675bd33ba3ef91d99b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 06/26] fix: number of reactions taken from the last label
 dropped reactions when labels are not 1..n

---
 Parse_eqn_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 4c711bd..92b74b3 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -85,8 +85,6 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
     char1='{'
     char2='}'
 
-    max_equations=int(re.findall(r"\{(.*?)\}",data)[-1].strip('.')) 
-    print("Calculating total number of equations = ",max_equations)
 
     # --------------------------------------------------------------------------------------------
 
@@ -126,6 +124,9 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
 
     # Extract all lines with equations on as a list
     eqn_list=re.findall(r"\}(.*?)\;",data)
+    # Count the equations themselves, as labels need not be consecutive
+    max_equations=len(eqn_list)
+    print("Calculating total number of equations = ",max_equations)
 
     #Create an integer that stores number of unque species
     species_step=0
-- 
2.43.0


From 43398ebd68ebadb499c895262cc308595b1268f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 07/26] fix: missing comma merged two peroxy radical names in
 the RO2 list

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 92b74b3..6e24ee1 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1789,7 +1789,7 @@ def write_RO2_indices(filename,species_dict2array):
     #The following is a list of species defined as contributing to total RO2 concetrations [old MCM]
     RO2_names = ['HOCH2CH2O2','HO1C3O2','HYPROPO2','IPROPOLO2','NBUTOLAO2','NBUTOLBO2','BUT2OLO2','IBUTOLBO2','IBUTOLCO2','TBUTOLO2','HO3C5O2', 
     'PE2ENEBO2','HM2C43O2','M2BUOL2O2','HM33C3O2','ME3BUOLO2','HO2M2C4O2','ME2BU2OLO2','PROL11MO2','H2M3C4O2','ME2BUOLO2','CYHEXOLAO2','MIBKAOHAO2',  
-    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2,'
+    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2',
     'IBUTALCO2','IC3H7O2','C4H9CO3','C4CHOBO2','NC4H9O2','ACO3','ACRO2','OCCOHCO2','CH3C2H2O2','MACO3','MACRO2','MACROHO2','C3DBCO3','C4CONO3O2','C4NO3COO2',
     'C4OCCOHCO2','COCCOH2CO2','SC4H9O2',  
     'IC4H9O2','TC4H9O2','PEAO2','PEBO2',  
-- 
2.43.0


From 48385546778f2ac59486adc431ed4fb4056e2316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 08/26] fix: RO2 index array of a mechanism without peroxy
 radicals was not usable as an index

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 6e24ee1..29843eb 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2127,7 +2127,7 @@ def write_RO2_indices(filename,species_dict2array):
         if name in species_dict2array:
             RO2_indices.append(species_dict2array[name])
             
-    np.save(filename+'_RO2_indices', RO2_indices)
+    np.save(filename+'_RO2_indices', np.array(RO2_indices, dtype=int))
     	
 def write_reactants_indices(filename,equations,num_species,species_dict2array,rate_dict_reactants,loss_dict):
 
-- 
2.43.0


From d7098a7850bdb22084da3a29d86e10da10851e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 09/26] fix: sparse loss/gain matrix lost the loss term of a
 species that is also a product

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 29843eb..04591c3 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2404,10 +2404,10 @@ def write_loss_gain_matrix(filename,equations,num_species,loss_dict,gain_dict,sp
             for equation_step, stoich in gain_dict[species].items():
                 if stoich==1:
                     #f.write('+r[%s]'%(equation_step))
-                    loss_gain[species_step,equation_step]=1.0
+                    loss_gain[species_step,equation_step]+=1.0
                 else:
                     #f.write('+r[%s]*%s'%(equation_step,stoich))
-                    loss_gain[species_step,equation_step]=1.0*stoich
+                    loss_gain[species_step,equation_step]+=1.0*stoich
                 
     #Now convert matrix type for use in numerical operations later
     loss_gain = loss_gain.tocsr()
-- 
2.43.0


From bcb5779aafc494fe46bf8cfde5a4c9b3a7f1f46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 10/26] fix: size bins shared their slice bounds between OpenMP
 threads

---
 Parse_eqn_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 04591c3..43e09ea 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3532,6 +3532,7 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('    INTEGER(8), PARAMETER :: num_species_condensed = %s \n'%(num_species_condensed))   
     f.write('    !Set all output variables to 0 \n') 
     f.write('    total_SOA_mass_array(:)=0.0D0 \n') 
+    f.write('    total_water_cond_mass=0.0D0 \n') 
     f.write('    dy_dt_gas_matrix(:,:)=0.0D0 \n') 
     f.write('    Pressure_eq(:)=0.0D0 \n') 
     f.write('    Cstar_i_m_t(:)=0.0D0 \n') 
@@ -3553,8 +3554,9 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \n') 
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
-    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt,index1,index2), & \n') 
+    f.write('!$OMP& REDUCTION(+:total_water_cond_mass), & \n') 
+    f.write('!$OMP& SHARED(size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-- 
2.43.0


From de966111f16b2e7453fc5faf73b46e6c5582a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 11/26] fix: only the last entry of the function table was
 applied to a rate expression

---
 rate_coeff_conversion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index beae9fe..8093b3a 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -80,8 +80,9 @@ def convert_rate_mcm(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -161,8 +162,9 @@ def convert_rate_mcm_numba(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -264,8 +266,9 @@ def convert_rate_mcm_fortran(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
-- 
2.43.0


From badeacd4b7bf8ec576a1a2a2a10dabad1b957ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 12/26] fix: ABS, SQRT and D0 exponents were left unconverted
 in Numba rate expressions

---
 rate_coeff_conversion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index 8093b3a..b44fa24 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -142,11 +142,14 @@ def convert_rate_mcm_numba(rate_dict):
         ('dabs','numba_abs'),
         ('dsqrt','numba_sqrt'),
         ('dlog','numba_log'),
+        ('ABS','numba_abs'),
+        ('SQRT','numba_sqrt'),
         ('LOG','numba_log'),
         ('EXP','numba_exp')
         ]
     map_list=[('D-','E-'),
         ('D+','E+'),
+        ('D0','E+0'),
         ('D1','E+1'),
         ('D2','E+2'),
         ('D3','E+3'),
@@ -250,6 +253,7 @@ def convert_rate_mcm_fortran(rate_dict):
         ]
     map_list=[('D-','E-'),
         ('D+','E+'),
+        ('D0','E+0'),
         ('D1','E+1'),
         ('D2','E+2'),
         ('D3','E+3'),
-- 
2.43.0


From 575eef7250ff02148cbde46178546d49d486dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 13/26] fix: time of day restarted at start_time in every
 batch, freezing the photolysis clock

---
 Aerosol/f2py/ODE_solver.py | 2 +-
 ODE_solver.py              | 4 ++--
 f2py/ODE_solver.py         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 89a5372..3d30075 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         #pdb.set_trace()
         # make sure the y array is not a list. Assimulo uses lists
diff --git a/ODE_solver.py b/ODE_solver.py
index a338b9e..707ef7c 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -80,7 +80,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         #pdb.set_trace()
         #Here we use the pre-created Numba based functions to arrive at our value for dydt
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -153,7 +153,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 58679f6..4399be4 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -110,7 +110,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here 
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
-- 
2.43.0


From f0b1a5bbc9839737fbd56da1b8bfa42ba99ba1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 14/26] fix: simulations whose time is not an exact multiple of
 the batch step ran out of output rows

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 4 ++--
 Aerosol/f2py/ODE_solver.py                        | 4 ++--
 ODE_solver.py                                     | 4 ++--
 f2py/ODE_solver.py                                | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index ce71d93..6909cde 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -206,7 +206,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     # the batch step change for increased speed
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # batches needed to cover the simulation time
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -218,7 +218,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 3d30075..d0d6331 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -246,7 +246,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=300.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # batches needed to cover the simulation time
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -258,7 +258,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/ODE_solver.py b/ODE_solver.py
index 707ef7c..d49f65d 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -226,7 +226,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=100.0 # seconds
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # batches needed to cover the simulation time
 
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -236,7 +236,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
     #pdb.set_trace()
 
-    while total_time < simulation_time:
+    while time_step < number_steps:
 
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 4399be4..208f298 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -172,7 +172,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     #batch_step=100.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,9))) # batches needed to cover the simulation time
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -181,7 +181,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
-- 
2.43.0


From fa2708a742f389bcd8646f119e5b6a92d1822a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 15/26] fix: water was recognised by object identity rather
 than by name

---
 Aerosol/f2py/ODE_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index d0d6331..317f6dd 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -213,9 +213,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # Define species concentrations in ppb fr the gas phase
     # You have already set this in the front end script, and now we populate the y array with those concentrations
     for specie in species_initial_conc.keys():
-        if specie is not 'H2O':
+        if specie != 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor #convert from pbb to molcules/cc
-        elif specie is 'H2O':
+        elif specie == 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]
 
     # Now add the initial condensed phase [including water]
-- 
2.43.0


From f9787b97532b8ba821d86a537e23a97f67ed6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 16/26] fix: aerosol drivers loaded an equation count that was
 never saved when re-using files

---
 Aerosol/f2py/Aerosol_simulation_f2py.py             | 2 ++
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 2 --
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index a39b786..9fbd12a 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -200,6 +200,8 @@ if __name__=='__main__':
             pickle.dump(species_dict2array, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_species_dict.pickle', 'wb') as handle:
             pickle.dump(species_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
+        with open(filename+'_equations.pickle', 'wb') as handle:
+            pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_Pybel_object_dict.pickle', 'wb') as handle:
             pickle.dump(Pybel_object_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_SMILES_dict.pickle', 'wb') as handle:
diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index f682fa5..6d754dd 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -210,8 +210,6 @@ if __name__=='__main__':
             species_dict2array = pickle.load(f) 
         with open(filename+'_species_dict.pickle', 'rb') as f:
             species_dict = pickle.load(f) 
-        with open(filename+'_equations.pickle', 'rb') as f:
-            equations = pickle.load(f) 
         with open(filename+'_Pybel_object_dict.pickle', 'rb') as f:
             Pybel_object_dict= pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
-- 
2.43.0


From 527096231a7eb3bd65ba483d67ffe74a8f99d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 17/26] fix: a species without a SMILES entry was given the
 previous species' structure

---
 Parse_eqn_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 43e09ea..f51f97f 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -345,6 +345,7 @@ def extract_smiles_species(output_dict, SMILES_filename):
                     species_SMILES=re.search(r'<smiles>(.*?)</smiles>',node.getElementsByTagName('smiles').item(0).toxml()).group(1)
                 except:
                     print('No SMILES entry for species ',species_name)
+                    continue
                 SMILES_dict[species_name]=species_SMILES
                 Pybel_object=pybel.readstring('smi',species_SMILES)
                 Pybel_object_dict[species_SMILES]=Pybel_object
-- 
2.43.0


From 972926273e879f79db91a6d5d3eaaea3d9e1b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:15 +0000
Subject: [PATCH 18/26] fix: Jacobian statements of reactions with coefficients
 exceeded the Fortran line length

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index f51f97f..1dc10be 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2790,7 +2790,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_loss_temp=list(set(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2866,7 +2866,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
                         reactants_list_gain_temp=list(set(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
-- 
2.43.0


From 72e9087aca42183dcf1f10294e1486fdff167184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 19/26] fix: aerosol driver kept species without properties as
 condensing when volatile ones were not to be ignored

---
 Aerosol/f2py/Aerosol_simulation_f2py.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index 9fbd12a..93b80ca 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -294,12 +294,12 @@ if __name__=='__main__':
     ignore_index_fortran=property_dict1['ignore_index_fortran'] 
     include_index=sorted(property_dict1['include_index']) # This is an array that captures compounds to be included in the partitioning calculations
     #pdb.set_trace()
-    if ignore_vp is True: # Remove those comounds for which there is no vapour pressure data OR are too volatile 
-        y_density_array=numpy.array(y_density_array)[include_index].tolist()
-        y_mw=numpy.array(y_mw)[include_index].tolist()
-        sat_vp=numpy.array(sat_vp)[include_index].tolist()
-        Delta_H=numpy.array(Delta_H)[include_index].tolist()
-        Latent_heat_gas=numpy.array(Latent_heat_gas)[include_index].tolist()
+    # Remove those comounds for which there is no vapour pressure data OR [if ignore_vp is True] are too volatile 
+    y_density_array=numpy.array(y_density_array)[include_index].tolist()
+    y_mw=numpy.array(y_mw)[include_index].tolist()
+    sat_vp=numpy.array(sat_vp)[include_index].tolist()
+    Delta_H=numpy.array(Delta_H)[include_index].tolist()
+    Latent_heat_gas=numpy.array(Latent_heat_gas)[include_index].tolist()
         
     
     sat_vap_water = numpy.exp((-0.58002206E4 / temp) + 0.13914993E1 - (0.48640239E-1 * temp) + (0.41764768E-4 * (temp**2.0E0))- (0.14452093E-7 * (temp**3.0E0)) + (0.65459673E1 * numpy.log(temp)))
-- 
2.43.0


From a5cbef4909f949ed99e05cb15b8fe4d66c1d1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:28 +0000
Subject: [PATCH 20/26] fix: f2py driver left other mechanisms' dictionaries
 behind when generating new code

---
 f2py/Gas_simulation_f2py.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/f2py/Gas_simulation_f2py.py b/f2py/Gas_simulation_f2py.py
index f0f80ef..f092250 100644
--- a/f2py/Gas_simulation_f2py.py
+++ b/f2py/Gas_simulation_f2py.py
@@ -103,6 +103,12 @@ if __name__=='__main__':
             #    os.remove(fname)
             if ".f90" in fname:
                 os.remove(fname)
+            if ".npy" in fname:
+                os.remove(fname)
+            if ".pickle" in fname:
+                os.remove(fname)
+            if ".npz" in fname:
+                os.remove(fname)
             if ".eqn.txt" in fname:
                 os.remove(fname)
 
-- 
2.43.0


From 2f3e8ff811d48649f881f9550b0f25615789a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:28 +0000
Subject: [PATCH 21/26] fix: fixed-yield driver could not find its
 concentrations when re-using files

---
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index 6d754dd..2521e6a 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -168,7 +168,8 @@ if __name__=='__main__':
         species_dict2array=outputdict['species_dict2array']
         num_species=outputdict['species_number']      
         SMILES_dict=outputdict['SMILES_dict']  
-        concentration_dict=outputdict['concentration_dict']
+        # Key the concentrations by SMILES, since the Pybel objects change when loaded from file again
+        concentration_dict=dict((smiles,outputdict['concentration_dict'][Pybel_object]) for smiles, Pybel_object in Pybel_object_dict.items())
         # Now calculate all properties that dictate gas-to-particle partitioning
         print("Calculating properties that dictate gas-to-particle partitioning")
         property_dict1=Property_calculation.Pure_component1(num_species,species_dict,
@@ -260,7 +261,7 @@ if __name__=='__main__':
     total_voc_ppb = total_voc_mass*(273.15+(temp-273.15))/(12.187*voc_mw)#total_voc_mass** ( (22.41 * temp / 273.0) / voc_mw )  #Assuming molecular weight alpha-pinene   
     y_gas=[0.0]*num_species
     for smiles, Pybel_object in Pybel_object_dict.items():
-        y_gas[species_dict2array[smiles]]=concentration_dict[Pybel_object]*total_voc_ppb*2.46E10 # ppb to molecules per cc [assuming 25C and 1atm - make this variable]
+        y_gas[species_dict2array[smiles]]=concentration_dict[smiles]*total_voc_ppb*2.46E10 # ppb to molecules per cc [assuming 25C and 1atm - make this variable]
     
     # Add water    
     sat_vap_water = numpy.exp((-0.58002206E4 / temp) + 0.13914993E1 - (0.48640239E-1 * temp) + (0.41764768E-4 * (temp**2.0E0))- (0.14452093E-7 * (temp**3.0E0)) + (0.65459673E1 * numpy.log(temp)))
-- 
2.43.0


From d669d487ca0530af53cb8a22edcee5bd79eb069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:31 +0000
Subject: [PATCH 22/26] fix: Plotting.py cannot be imported because of a
 function without a body

---
 Plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Plotting.py b/Plotting.py
index c6bbeac..cf98af2 100644
--- a/Plotting.py
+++ b/Plotting.py
@@ -80,6 +80,7 @@ def stacked_bar(time,y_matrix,num_species, num_bins,molw_asnumpy,NA):
 def gas_phase_evolution():
     # This function plots the evolving concentration [in pbb] of gas phase species according to a given model output
     # The species to plot are provided by the users and colours selected by Matplotlib
+    pass
     
 #def gas_phase():
 #    #This function plots the change in gas phase concentrations over time
\ No newline at end of file
-- 
2.43.0


From a006d8f9ef500630179c949e10f9def9cf441431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:31 +0000
Subject: [PATCH 23/26] fix: no contribution plot when compounds are left out
 of the partitioning

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index 6909cde..7a51650 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -296,7 +296,8 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     #In a future release I will add this as a seperate module
     if with_plots:
         try:
-            Plotting.stacked_bar(t_array,y_matrix,num_species_condensed,num_bins,numpy.array(y_mw[include_index]),NA)
+            #The plotting function expects as many compounds before the size bins as there are in each of them
+            Plotting.stacked_bar(t_array,y_matrix[:,num_species-num_species_condensed:],num_species_condensed,num_bins,numpy.array(y_mw),NA)
         except:
             print("There is a problem using Matplotlib in your environment. If using this within a docker container, you will need to transfer the data to the host or configure your container to enable graphical displays. More information can be found at http://wiki.ros.org/docker/Tutorials/GUI ")
         
\ No newline at end of file
-- 
2.43.0


From ce6f24314317d0a183e2b09f2719ee3c017f221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:46 +0000
Subject: [PATCH 24/26] fix: partitioning code without ignored compounds does
 not compile and shares its loop bounds between threads

---
 Parse_eqn_file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 1dc10be..2e626fc 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3304,6 +3304,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('                              Correction, Kn, dm_dt,& \n')
     f.write('                              k_i_m_t_part1, k_i_m_t \n') 
     f.write('    REAL(8), dimension(%s,%s) :: dy_dt_gas_matrix \n'%(num_species,num_bins))
+    f.write('    REAL(8), dimension(%s) :: total_SOA_mass_array \n'%(num_bins))
     f.write('    REAL(8) total_moles, density, diameter, radius, water_moles  \n')
     f.write('    REAL(8), dimension(%s) :: Pressure_eq, Cstar_i_m_t \n'%(num_species)) 
     f.write('    REAL(8), dimension(%s) :: kelvin_factor,y_mole_fractions  \n'%(num_species))
@@ -3317,6 +3318,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('\n')     
     f.write('    !Set all output variables to 0 \n') 
     f.write('    total_SOA_mass_array(:)=0.0D0 \n') 
+    f.write('    total_water_cond_mass=0.0D0 \n') 
     f.write('    dy_dt_gas_matrix(:,:)=0.0D0 \n') 
     f.write('    Pressure_eq(:)=0.0D0 \n') 
     f.write('    Cstar_i_m_t(:)=0.0D0 \n') 
@@ -3337,12 +3339,13 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \n') 
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
-    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_SOA_mass,total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt,index1,index2), & \n') 
+    f.write('!$OMP& REDUCTION(+:total_water_cond_mass), & \n') 
+    f.write('!$OMP& SHARED(size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array) \n') 
+    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array,total_SOA_mass_array) \n') 
     f.write('    DO size_step=1,%s \n'%(num_bins)) 
     f.write('\n')     	
     f.write('        ! 1) Select a slice of y that represents this size bin \n') 
@@ -3357,7 +3360,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('        density_array(1:num_species)=density_input(1:num_species)\n') 
     f.write('        density_array(num_species+1)=core_density_array(size_step)\n') 
     f.write('\n')     	
-    f.write('        total_SOA_mass=total_SOA_mass+SUM(mass_array(1:num_species-1))\n') 
+    f.write('        total_SOA_mass_array(size_step)=SUM(mass_array(1:num_species-1))\n') 
     f.write('        total_water_cond_mass=total_water_cond_mass+mass_array(num_species)\n') 
     f.write('        aw_array(size_step)=temp_array(num_species)/total_moles  \n')     	
     f.write('        total_mass=SUM(mass_array(:))\n') 
@@ -3426,6 +3429,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('\n')    		
     f.write('    ENDDO \n') 
     f.write('!$OMP END PARALLEL DO \n') 
+    f.write('   total_SOA_mass=SUM(total_SOA_mass_array)*(1.0D12)  \n')
     f.write('   dy_dt(1:num_species)=dy_dt(1:num_species)-SUM(dy_dt_gas_matrix, DIM=2)  \n')
     f.write('\n')    		    
     f.write('end subroutine \n') 
-- 
2.43.0


From 003cc3db610d0d8276e7e198b4329a16d9ddffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:50 +0000
Subject: [PATCH 25/26] fix: loss/gain statements with long coefficients
 exceeded the Fortran line length

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 2e626fc..03c2713 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2597,7 +2597,7 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                 if species in loss_dict.keys():
                     loss_step=0
                     for equation_step, stoich in loss_dict[species].items():
-                        if flag > 4:
+                        if flag > 1: # coefficients can have up to 17 digits, a Fortran line 132 characters
                             f.write(' & \n')
                             f.write('    ')
                             flag=0
@@ -2620,7 +2620,7 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                     gain_step=0
                             
                     for equation_step, stoich in gain_dict[species].items():
-                        if flag > 4:
+                        if flag > 1: # coefficients can have up to 17 digits, a Fortran line 132 characters
                             f.write(' & \n')
                             f.write('    ')
                             flag=0
-- 
2.43.0


From 37790b1a9b4dbf1637794ab977f1ae7074cf0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:05 +0000
Subject: [PATCH 26/26] fix: eight peroxy radical names ended in a stray
 bracket and were never counted

HOCH2CO3, ETBEBO2, C62NO33O2, IPBZBIPRO2, METLMUCCO3, MXYOLO2, C2CL3OHAO2 and
CCLNO3O2 were listed with a trailing ')', so no species ever matched them.
---
 Parse_eqn_file.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 03c2713..560c0fa 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1810,25 +1810,25 @@ def write_RO2_indices(filename,species_dict2array):
     'C4NO32M1O2','C4NO32M2O2','C4M3NO31O2',  
     'C4M3NO32O2','IPRCHOOA','ME3BU2OLO2',  
     'C4M2NO32O2','C4M2NO33O2','C65NO36O2',  
-    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2)', 
+    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2', 
     'C63NO32O2','C64OH5O2','C65OH4O2',  
     'C4ME2NO3O2','C4ME2OHO2','BZBIPERO2',  
     'C6H5CH2O2','TLBIPERO2','OXYLO2',  
     'OXYBIPERO2','MXYLO2','MXYBIPERO2','PXYLO2',  
     'PXYBIPERO2','C6H5C2H4O2','EBZBIPERO2',  
-    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2)',  
+    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2',  
     'TM123BO2','TM123BPRO2','TM124BO2',  
     'TM124BPRO2','TMBO2','TM135BPRO2','ETOLO2',  
     'OETLBIPRO2','METLBIPRO2','PETLBIPRO2',  
     'DM35EBO2','DMEBIPRO2','DE35TO2',  
     'DETLBIPRO2','NSTYRENO2','STYRENO2',  
     'C6H5CO3','C6H5O2','CH2CLO2','CHCL2O2',  
-    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2)',  
+    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2',  
     'C2CL3OHBO2','C2CL2OHO2','DICLETO2',  
     'CH2OHCL2O2','CL2OHCH2O2','CL12PRAO2',  
     'CL12PRBO2','CL12PRCO2','CH3CCL2O2',  
     'CHCL2CH2O2','CH2CLCH2O2','CH3CHCLO2',  
-    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2)',  
+    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2',  
     'CNO3CLO2','CCLOHCH2O2','CH2OHCCLO2',  
     'NBUTDAO2','NBUTDBO2','BUTDAO2','BUTDBO2',  
     'BUTDCO2','NISOPO2','ISOP34O2','CHOOCH2O2',  
@@ -1839,7 +1839,7 @@ def write_RO2_indices(filename,species_dict2array):
     'NBUACETCO2','SBUACETAO2','SBUACETBO2',  
     'MCOOTBO2','TBOCOCH2O2','CH3OCH2O2',  
     'DIETETO2','ETOC2O2','MTBEAO2','MTBEBO2',  
-    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2)',  
+    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2',  
     'ETBECO2','MO2EOLAO2','MO2EOLBO2',  
     'EOX2EOLAO2','EOX2EOLBO2','PR2OHMOXO2',  
     'H2C3OCO2','BOX2EOHAO2','BOX2EOHBO2',  
@@ -1856,13 +1856,13 @@ def write_RO2_indices(filename,species_dict2array):
     'LIMBO2','LIMCO2','NBCO2','BCAO2',  
     'BCBO2','BCCO2','DMMAO2','DMMBO2',  
     'DMCO2','CH3SCH2O2','HODMSO2','ETHOXO2',  
-    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3)',  
+    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3',  
     'CH3CHOHCO3','IPRHOCO3','IPRCHOO',  
     'BZEMUCCO3','BZEMUCO2','C5DIALO2','NPHENO2',  
     'PHENO2','CRESO2','NCRESO2','TLEMUCCO3',  
     'TLEMUCO2','C615CO2O2','OXYMUCCO3',  
     'OXYMUCO2','MC6CO2O2','NOXYOLO2','OXYOLO2',  
-    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2)',  
+    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2',  
     'NMXYOLO2','PXYMUCCO3','PXYMUCO2',  
     'C6M5CO2O2','NPXYOLO2','PXYOLO2','EBENZOLO2',  
     'NEBNZOLO2','EBZMUCCO3','EBZMUCO2',  
@@ -1875,7 +1875,7 @@ def write_RO2_indices(filename,species_dict2array):
     'TM124MUCO2','C7CO2M5O2','NTM135OLO2',  
     'TM135OLO2','TM135MUCO3','TM135MUCO2',  
     'C7M2CO5O2','OETLMUCCO3','OETLMUCO2',  
-    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3)',  
+    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3',  
     'METLMUCO2','C826CO3O2','METOLO2',  
     'NMETOLO2','PETLMUCCO3','PETLMUCO2',  
     'C7M6CO2O2','NPETOLO2','PETOLO2','DMEBMUCO3',  
-- 
2.43.0

