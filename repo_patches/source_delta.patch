From 306189bb9d4a96dc5bfcd81855e8f8dd9108d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:33 +0000
Subject: [PATCH 01/28] fix: keep surface water when the ponded depth equals
 its maximum exactly

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4a09fd0..c371ba0 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2069,7 +2069,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
       *ponded_depth_cm     = *ponded_depth_cm - *volin_this_timestep;
       return runoff;
     }
-    else if (ponded_depth_temp > ponded_depth_max_cm ) {
+    else {
       runoff = ponded_depth_temp - ponded_depth_max_cm;
       *ponded_depth_cm     = ponded_depth_max_cm;
       *volin_this_timestep = fp_cm;
-- 
2.43.0


From 6f5dc99fa991ebfb37eaaa1ec7bcce35413c999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:36 +0000
Subject: [PATCH 02/28] fix: GetGridShape reports the shape of every grid in
 shape[0]

---
 src/bmi_lgar.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 38e42a1..5cd35b7 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -820,10 +820,8 @@ GetVarLocation(std::string name)
 void BmiLGAR::
 GetGridShape(const int grid, int *shape)
 {
-  if (grid == 2)
-    shape[0] = this->state->lgar_bmi_params.num_layers;
-  else if (grid == 3) // number of wetting fronts (dynamic)
-    shape[1] = this->state->lgar_bmi_params.num_wetting_fronts;
+  if (GetGridRank(grid) == 1) // all grids are one-dimensional (scalars have size 1)
+    shape[0] = GetGridSize(grid);
 }
 
 
-- 
2.43.0


From 1e9467b019a4ef345876e43f08380430751ba218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:39 +0000
Subject: [PATCH 03/28] fix: compute theta_wp with the soil's own van Genuchten
 m instead of an uninitialised value

---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index c371ba0..4b4aba5 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2290,7 +2290,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   int length;
   int num_soils_in_file = 0;             // soil counter
   int soil = 1;
-  double theta_e,theta_r,vg_n,vg_m,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
+  double theta_e,theta_r,vg_n,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
   double m,p,lambda;
 
   // open the file
@@ -2321,7 +2321,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].vg_m            = 1-1/vg_n;
     soil_properties[soil].Ksat_cm_per_h   = Ksat_cm_per_h;
     soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
-						       vg_m, vg_n, theta_e, theta_r);
+						       soil_properties[soil].vg_m, vg_n, theta_e, theta_r);
 
     // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
     if (1.0 < vg_n) {
-- 
2.43.0


From a9803d45d09cb2ebb908c7c9046bf054feec69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:41 +0000
Subject: [PATCH 04/28] fix: reject soil names that do not fit instead of
 overflowing the name buffers

---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4b4aba5..b0fea15 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2285,7 +2285,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   // local vars
   FILE *in_vG_params_fptr = NULL;
   char jstr[256];
-  char soil_name[30];
+  char soil_name[256];
   // bool error;
   int length;
   int num_soils_in_file = 0;             // soil counter
@@ -2306,7 +2306,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     sscanf(jstr,"%s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
     length=strlen(soil_name);
 
-    if(length>MAX_SOIL_NAME_CHARS) {
+    if(length>=MAX_SOIL_NAME_CHARS) {
       printf("While reading vG soil parameter file: %s, soil name longer than allowed.  Increase MAX_SOIL_NAME_CHARS\n",
 	     vG_param_file_name);
       printf("Program stopped.\n");
-- 
2.43.0


From c4dd0ee737e269efe452f9d89ccd00faa7aaf8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:45 +0000
Subject: [PATCH 05/28] fix: allocate a soil_properties entry for layers with
 an invalid soil type

---
 src/lgar.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index b0fea15..6d82ac0 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -555,7 +555,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
 
 
-    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1];
+    // layers may carry a soil type beyond the valid range (e.g., waterbody); such a type is never modeled, but its entry is read
+    int max_soil_type = state->lgar_bmi_params.num_soil_types;
+    for (int layer=1; layer <= state->lgar_bmi_params.num_layers; layer++)
+      max_soil_type = std::max(max_soil_type, state->lgar_bmi_params.layer_soil_type[layer]);
+
+    state->soil_properties = new soil_properties_[max_soil_type+1]();
     int num_soil_types = state->lgar_bmi_params.num_soil_types;
     double wilting_point_psi_cm = state->lgar_bmi_params.wilting_point_psi_cm;
     double field_capacity_psi_cm = state->lgar_bmi_params.field_capacity_psi_cm;
-- 
2.43.0


From 4ad2b6b29789204371f9363cd071d9e5c6b70ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:10 +0000
Subject: [PATCH 06/28] fix: check that layer_thickness is set before the
 number of layers is used

---
 src/lgar.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 6d82ac0..0053bcc 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -550,6 +550,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     throw runtime_error(errMsg.str());
   }
     
+  if (!is_layer_thickness_set) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
+    throw runtime_error(errMsg.str());
+  }
+
   if(is_soil_params_file_set) {
     //allocate memory to create an array of structures to hold the soils properties data.
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
@@ -598,12 +604,6 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     throw runtime_error(errMsg.str());
   }
   
-  if (!is_layer_thickness_set) {
-    stringstream errMsg;
-    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
-    throw runtime_error(errMsg.str());
-  }
-
   if (!is_initial_psi_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set initial_psi. \n";
-- 
2.43.0


From 1bf67699c02fe8ad87d997a6c80e5374b8e9e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:13 +0000
Subject: [PATCH 07/28] fix: GIUH ordinates for forcing resolutions coarser
 than an hour

---
 src/lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 0053bcc..174e1ad 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -641,7 +641,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (is_giuh_ordinates_set) {
-    int factor = int(1.0/state->lgar_bmi_params.forcing_resolution_h);
+    // number of forcing timesteps per hour; at least one, and 1.0e-08 is added to prevent truncation error
+    int factor = std::max(1, int(1.0/state->lgar_bmi_params.forcing_resolution_h + 1.0e-08));
 
     state->lgar_bmi_params.num_giuh_ordinates = factor * (giuh_ordinates_temp.size() - 1);
     state->lgar_bmi_params.giuh_ordinates = new double[state->lgar_bmi_params.num_giuh_ordinates+1];
-- 
2.43.0


From 1654fff4134910985bca9ee52229d8ce329d3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:16 +0000
Subject: [PATCH 08/28] fix: pair each layer's thickness with its own
 conductivity in dz/dt

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 174e1ad..3055c8d 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2480,7 +2480,7 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
 	double K_cm_per_h_prev_loc = calc_K_from_Se(Se_prev_loc,soil_properties[soil_num_loc].Ksat_cm_per_h * frozen_factor[layer_num-k],
 						    soil_properties[soil_num_loc].vg_m);
 
-	denominator += (cum_layer_thickness_cm[k] - cum_layer_thickness_cm[k-1])/ K_cm_per_h_prev_loc;
+	denominator += (cum_layer_thickness_cm[layer_num-k] - cum_layer_thickness_cm[layer_num-k-1])/ K_cm_per_h_prev_loc;
 
       }
 
-- 
2.43.0


From 0856c4a527b44392e01a9daf36a8fbc3f5dfb986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:19 +0000
Subject: [PATCH 09/28] fix: use the frozen factor of the layer whose
 conductivity limits infiltration

---
 src/lgar.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 3055c8d..67dbcae 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1958,7 +1958,6 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
   double theta_e, theta_r;
   double vg_a, vg_m, vg_n,Ksat_cm_per_h;
   double h_min_cm;
-  struct wetting_front *current;
   struct wetting_front *current_free_drainage;
   struct wetting_front *current_free_drainage_next;
   int soil_num;
@@ -1967,7 +1966,6 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
 
   double h_p = fmax(*ponded_depth_cm - precip_timestep_cm * timestep_h, 0.0); // water ponded on the surface
 
-  current = head;
   current_free_drainage      = listFindFront(wf_that_supplies_free_drainage_demand, head, NULL);
   current_free_drainage_next = listFindFront(wf_that_supplies_free_drainage_demand+1, head, NULL);
 
@@ -1982,7 +1980,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
   if (number_of_wetting_fronts == num_layers) {
     Geff = 0.0; // i.e., case of no capillary suction, dz/dt is also zero for all wetting fronts
     soil_num = soil_type[layer_num_fp];
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num]; //23 feb 2024
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp]; //23 feb 2024
   }
   else {
 
@@ -1999,7 +1997,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
     vg_n     = soil_properties[soil_num].vg_n;
     double lambda = soil_properties[soil_num].bc_lambda;
     double bc_psib_cm = soil_properties[soil_num].bc_psib_cm;
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num];
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp];
 
     // Se = calc_Se_from_theta(theta,theta_e,theta_r);
     // psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
-- 
2.43.0


From 1f5a57e7f94e21a3c822b2de081a17e87f72cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:22 +0000
Subject: [PATCH 10/28] fix: apply the frozen factor once to the conductivity
 of a new wetting front

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 67dbcae..4a2753c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2156,7 +2156,7 @@ extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm,
   Se = calc_Se_from_theta(theta_new,theta_e,theta_r);
   current->psi_cm = calc_h_from_Se(Se, vg_alpha_per_cm , vg_m, vg_n);
 
-  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m) * frozen_factor[layer_num]; // AJ - K_temp in python version for 1st layer
+  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m); // AJ - K_temp in python version for 1st layer
 
   current->dzdt_cm_per_h = 0.0; //for now assign 0 to dzdt as it will be computed/updated in lgar_dzdt_calc function
 
-- 
2.43.0


From 56c3d5ca20ca501514c8ba23212e807c8a036b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:25 +0000
Subject: [PATCH 11/28] fix: do not read past the end of the soil temperature
 profile

---
 src/lgar.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4a2753c..9c3f2b7 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -830,13 +830,11 @@ extern void frozen_factor_hydraulic_conductivity(struct lgar_bmi_parameters lgar
     layer_temp = 0.0;
     count = 0;
 
-    while (lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
+    while (c < lgar_bmi_params.num_cells_temp &&  // to ensure we don't access out of bound values
+	   lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
       layer_temp +=lgar_bmi_params.soil_temperature[c];
       c++;
       count++;
-
-      if (c == lgar_bmi_params.num_cells_temp) // to ensure we don't access out of bound values
-	break;
     }
 
 
-- 
2.43.0


From 35500d9c2bfdbe444c9a75ff3f6dbf990f52a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:36 +0000
Subject: [PATCH 12/28] fix: invalid soil types pass the precipitation amount
 of the forcing interval through

---
 src/bmi_lgar.cxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 5cd35b7..a26c806 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -88,15 +88,18 @@ Update()
   double mm_to_m = 0.001;
   
   if (state->lgar_bmi_params.is_invalid_soil_type) {
+    // all the precipitation of the forcing interval leaves as runoff (rate [mm/h] x forcing resolution [h] = amount)
+    double precip_mm = state->lgar_bmi_input_params->precipitation_mm_per_h * state->lgar_bmi_params.forcing_resolution_h;
+
     // add to mass balance accumulated variables
-    state->lgar_mass_balance.volprecip_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volprecip_cm  += precip_mm * mm_to_cm;
     state->lgar_mass_balance.volin_cm       = 0.0;
     state->lgar_mass_balance.volon_cm       = 0.0;
     state->lgar_mass_balance.volend_cm      = state->lgar_mass_balance.volstart_cm;
     state->lgar_mass_balance.volAET_cm      = 0.0;
     state->lgar_mass_balance.volrech_cm     = 0.0;
-    state->lgar_mass_balance.volrunoff_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
-    state->lgar_mass_balance.volQ_cm       += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volrunoff_cm  += precip_mm * mm_to_cm;
+    state->lgar_mass_balance.volQ_cm       += precip_mm * mm_to_cm;
     state->lgar_mass_balance.volQ_gw_cm     = 0.0;
     state->lgar_mass_balance.volPET_cm      = 0.0;
     state->lgar_mass_balance.volrunoff_giuh_cm  = 0.0;
@@ -104,13 +107,13 @@ Update()
 
     // converted values, a struct local to the BMI and has bmi output variables
     bmi_unit_conv.mass_balance_m        = 0.0;
-    bmi_unit_conv.volprecip_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volprecip_timestep_m  = precip_mm * mm_to_m;
     bmi_unit_conv.volin_timestep_m      = 0.0;
     bmi_unit_conv.volend_timestep_m     = 0.0;
     bmi_unit_conv.volAET_timestep_m     = 0.0;
     bmi_unit_conv.volrech_timestep_m    = 0.0;
-    bmi_unit_conv.volrunoff_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
-    bmi_unit_conv.volQ_timestep_m       = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volrunoff_timestep_m  = precip_mm * mm_to_m;
+    bmi_unit_conv.volQ_timestep_m       = precip_mm * mm_to_m;
     bmi_unit_conv.volQ_gw_timestep_m    = 0.0;
     bmi_unit_conv.volPET_timestep_m     = 0.0;
     bmi_unit_conv.volrunoff_giuh_timestep_m = 0.0;
-- 
2.43.0


From ea2be2f6ec3f5961b5b9feecfc49e02745e59626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 13/28] fix: advance the model time for invalid soil types as
 well

---
 src/bmi_lgar.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index a26c806..570cca8 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -118,6 +118,8 @@ Update()
     bmi_unit_conv.volPET_timestep_m     = 0.0;
     bmi_unit_conv.volrunoff_giuh_timestep_m = 0.0;
 
+    state->lgar_bmi_params.time_s += state->lgar_bmi_params.forcing_resolution_h * state->units.hr_to_sec;
+
     return;
   }
   
-- 
2.43.0


From d4a089305c46441b1cae3be9239ee986cc7dec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:42 +0000
Subject: [PATCH 14/28] fix: UpdateUntil advances the model to the requested
 time

---
 src/bmi_lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 570cca8..1b449ba 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -570,7 +570,8 @@ void BmiLGAR::
 UpdateUntil(double t)
 {
   assert (t > 0.0);
-  this->Update();
+  while (this->GetCurrentTime() < t - 1.0e-6) // tolerance [s] for round-off in the accumulated time
+    this->Update();
 }
 
 struct model_state* BmiLGAR::get_model()
-- 
2.43.0


From c30ad15f046cc0cfc28e5fb9f739fdaaddb60d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:45 +0000
Subject: [PATCH 15/28] fix: do not use a wetting front after deleting it

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 9c3f2b7..73c55d6 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1217,7 +1217,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
         //the idea here is that in some cases, the reduction in theta via WF movement or AET will be intense enough such that theta goes below theta_r.
         //it requires a fairly unusual soil, which I encountered during random parameter sampling.
         double mass_before_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head) - current->depth_cm*(current->theta - (prior_mass/current->depth_cm + next->theta));
-        listDeleteFront(current->front_num, head);
+        current = listDeleteFront(current->front_num, head); // current is now the wetting front that was below the deleted one
         double mass_after_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head);
         *AET_demand_cm = *AET_demand_cm - fabs(mass_before_theta_went_below_theta_r - mass_after_theta_went_below_theta_r);
         actual_ET_demand = *AET_demand_cm;
-- 
2.43.0


From 6a433b3ed123ebad831818bbe9192750eaa6d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:48 +0000
Subject: [PATCH 16/28] fix: soil_z: check it before use, and release it when
 not coupled to soil freeze-thaw

---
 src/lgar.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 73c55d6..8094a8e 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -670,15 +670,17 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (state->lgar_bmi_params.sft_coupled) {
-    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
     if (!is_soil_z_set) {
       stringstream errMsg;
       errMsg << "The configuration file \'" << config_file <<"\' does not set soil_z. \n";
       throw runtime_error(errMsg.str());
     }
+    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
   }
   else {
     //NJF FIXME these arrays should be allocated based on num_cells_temp...
+    if (is_soil_z_set)
+      delete [] state->lgar_bmi_params.soil_temperature_z; // replaced below
     state->lgar_bmi_params.soil_temperature   = new double[1]();
     state->lgar_bmi_params.soil_temperature_z = new double[1]();
     state->lgar_bmi_params.num_cells_temp     = 1;
-- 
2.43.0


From 5abc8605c5bf088ea0132a1267d677075f8c4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:51 +0000
Subject: [PATCH 17/28] fix: refresh the Brooks & Corey estimates when van
 Genuchten parameters are calibrated

---
 src/bmi_lgar.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 1b449ba..1d04796 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -619,6 +619,14 @@ update_calibratable_parameters()
     state->soil_properties[soil].vg_m    = 1.0 - 1.0/state->soil_properties[soil].vg_n;
     state->soil_properties[soil].vg_alpha_per_cm = state->lgar_calib_params.vg_alpha[layer_num-1];
     state->soil_properties[soil].Ksat_cm_per_h   = state->lgar_calib_params.Ksat[layer_num-1];
+
+    // the Brooks & Corey estimates depend on vg_n and vg_alpha (see lgar_read_vG_param_file)
+    double p = 1.0 + 2.0 / state->soil_properties[soil].vg_m;
+    double lambda = 2.0 / (p - 3.0);
+    state->soil_properties[soil].bc_lambda  = lambda;
+    state->soil_properties[soil].bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
+      (2.0 * state->soil_properties[soil].vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
+    state->soil_properties[soil].h_min_cm   = state->soil_properties[soil].bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
     
     current->theta = calc_theta_from_h(current->psi_cm, state->soil_properties[soil].vg_alpha_per_cm,
 				       state->soil_properties[soil].vg_m, state->soil_properties[soil].vg_n,
-- 
2.43.0


From 905e780ebe055c08c6fe7eb913c83841911ef8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:10 +0000
Subject: [PATCH 18/28] fix: soil_depth_layers reports the depth of each
 layer's bottom in meters

---
 include/all.hxx  | 1 +
 src/bmi_lgar.cxx | 4 +++-
 src/lgar.cxx     | 4 ++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/all.hxx b/include/all.hxx
index a3c3fd2..7756983 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -124,6 +124,7 @@ struct lgar_bmi_parameters
 					   output to other models (e.g. soil freeze-thaw) */
   double *soil_depth_wetting_fronts;    /* 1D array of absolute depths of the wetting fronts [meters];
 					    output to other models (e.g. soil freeze-thaw) */
+  double *soil_depth_layers;             // 1D array of the depth of the bottom of each layer [meters]; bmi output
   double *soil_temperature;              // 1D array of soil temperature [K]; bmi input for coupling lasam to soil freeze thaw model
   double *soil_temperature_z;            /* 1D array of soil discretization associated with temperature profile [m];
 					    depth from the surface in meters */
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 1d04796..350f363 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -685,6 +685,8 @@ Finalize()
   delete [] state->lgar_bmi_params.soil_depth_wetting_fronts;
   delete [] state->lgar_bmi_params.soil_moisture_wetting_fronts;
 
+  delete [] state->lgar_bmi_params.soil_depth_layers;
+
   delete [] state->lgar_bmi_params.soil_temperature;
   delete [] state->lgar_bmi_params.soil_temperature_z;
   delete [] state->lgar_bmi_params.layer_soil_type;
@@ -926,7 +928,7 @@ GetValuePtr (std::string name)
   else if (name.compare("mass_balance") == 0)
     return (void*)(&bmi_unit_conv.mass_balance_m);
   else if (name.compare("soil_depth_layers") == 0)
-    return (void*)this->state->lgar_bmi_params.cum_layer_thickness_cm;  // this too and, if needed, change soil_moisture_layers to soil_thickness_layers
+    return (void*)this->state->lgar_bmi_params.soil_depth_layers;  // this too and, if needed, change soil_moisture_layers to soil_thickness_layers
   else if (name.compare("soil_moisture_wetting_fronts") == 0)
     return (void*)this->state->lgar_bmi_params.soil_moisture_wetting_fronts;
   else if (name.compare("soil_depth_wetting_fronts") == 0)
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 8094a8e..1a0285f 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -83,6 +83,10 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   state->lgar_bmi_params.soil_depth_wetting_fronts    = new double[state->lgar_bmi_params.num_wetting_fronts];
   state->lgar_bmi_params.soil_moisture_wetting_fronts = new double[state->lgar_bmi_params.num_wetting_fronts];
 
+  state->lgar_bmi_params.soil_depth_layers = new double[state->lgar_bmi_params.num_layers];
+  for (int i=0; i<state->lgar_bmi_params.num_layers; i++)
+    state->lgar_bmi_params.soil_depth_layers[i] = state->lgar_bmi_params.cum_layer_thickness_cm[i+1] * state->units.cm_to_m;
+
   // initialize array for holding calibratable parameters
   state->lgar_calib_params.theta_e  = new double[state->lgar_bmi_params.num_layers];
   state->lgar_calib_params.theta_r  = new double[state->lgar_bmi_params.num_layers];
-- 
2.43.0


From f40c94a35b8b00222927d3b74b196c84037976df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:13 +0000
Subject: [PATCH 19/28] fix: inserting a wetting front into the middle of the
 list terminates

---
 src/linked_list.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/linked_list.cxx b/src/linked_list.cxx
index 0176d41..85eabef 100755
--- a/src/linked_list.cxx
+++ b/src/linked_list.cxx
@@ -315,18 +315,16 @@ extern struct wetting_front* listInsertFront(double depth, double theta, int new
       link->next = previous->next ;
       previous->next = link;
 
-      while(link->next != NULL) { // increment all front numbers
-	current = link->next;
+      for(current = link->next; current != NULL; current = current->next) // increment all front numbers below the new one
 	current->front_num++;
-	previous = current;
-	current = current->next;
-      }
 
       return link;
     }
 
     previous = previous->next;
-  } while(TRUE);
+  } while(previous != NULL);
+
+  return NULL; // there is no such position in the list
 
 }
 
-- 
2.43.0


From 99c928160d11f31728c36c8a9a5037d7b805116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:34 +0000
Subject: [PATCH 20/28] fix: adaptive subtimesteps cover the whole forcing
 interval

---
 src/bmi_lgar.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 350f363..7622859 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -202,6 +202,9 @@ Update()
       subtimestep_h = state->lgar_bmi_params.minimum_timestep_h * 2.0;  //case where precip is less than 1 cm/h but greater than 0, and there is no ponded head 
     }
     subtimestep_h = fmin(subtimestep_h, state->lgar_bmi_params.forcing_resolution_h);  //just in case the user has specified a minimum time step that would make the subtimestep_h greater than the forcing resolution 
+    double num_subtimesteps = state->lgar_bmi_params.forcing_resolution_h / subtimestep_h;
+    if (fabs(num_subtimesteps - floor(num_subtimesteps + 0.5)) > 1.0e-08) // the subtimesteps must cover the whole forcing interval
+      subtimestep_h = state->lgar_bmi_params.minimum_timestep_h;
     state->lgar_bmi_params.timestep_h = subtimestep_h;
   }
 
-- 
2.43.0


From 7dd253d73df0cbbcd08c6bf6f01c427a9fbcdb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:34 +0000
Subject: [PATCH 21/28] fix: a parameter's unit ends at its closing bracket

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 1a0285f..883ba27 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -255,7 +255,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     bool is_unit = line.find("[") != string::npos;
 
     if (is_unit)
-      param_unit = line.substr(loc_u,line.find("]")+1);
+      param_unit = line.substr(loc_u,line.find("]")+1-loc_u);
     else
       param_unit = "";
 
-- 
2.43.0


From 63b6bda8db8f8487daf1c20a93f8fe8327184490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:34 +0000
Subject: [PATCH 22/28] fix: define the bmi outputs before the first update

---
 src/bmi_lgar.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 7622859..fbc7074 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -55,6 +55,10 @@ Initialize (std::string config_file)
     giuh_runoff_queue[i] = 0.0;
   }
 
+  // no flux has occurred yet, so that bmi outputs are defined before the first update
+  bmi_unit_conv = bmi_unit_conversion();
+  bmi_unit_conv.volend_timestep_m = state->lgar_mass_balance.volstart_cm * state->units.cm_to_m;
+
 }
 
 /**
-- 
2.43.0


From bd152636f1025e04e7c92326152f808736989125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:37 +0000
Subject: [PATCH 23/28] fix: detect a saturated column by the deepest layer's
 own saturated water content

The infiltration limit for a completely saturated column compared the water
content of the deepest wetting front with the saturated water content of the
top layer, so that an unsaturated column with that water content in its
deepest layer stopped infiltrating.
---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 883ba27..58778f4 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2030,8 +2030,8 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
   }
 
   // checkpoint # AJ
-  int soil_num_k = soil_type[head->layer_num];
-  double theta_e1 = soil_properties[soil_num_k].theta_e; // saturated theta of top layer
+  int soil_num_k = soil_type[layer_num_fp];
+  double theta_e1 = soil_properties[soil_num_k].theta_e; // saturated theta of the layer the wetting front is in
 
   // if free drainge has to be included, which currently we don't, then the following will be set to hydraulic conductivity
   // of the deeepest layer
-- 
2.43.0


From 1deab34e379e56fabe1d9de0d065a9740d35c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:47 +0000
Subject: [PATCH 24/28] fix: a run without updates reports its initial water as
 its final water

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 58778f4..ef555e1 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -126,7 +126,7 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   // initialize all global mass balance variables to zero
   state->lgar_mass_balance.volprecip_cm              = 0.0;
   state->lgar_mass_balance.volin_cm                  = 0.0;
-  state->lgar_mass_balance.volend_cm                 = 0.0;
+  state->lgar_mass_balance.volend_cm                 = state->lgar_mass_balance.volstart_cm; // nothing has changed yet
   state->lgar_mass_balance.volAET_cm                 = 0.0;
   state->lgar_mass_balance.volrech_cm                = 0.0;
   state->lgar_mass_balance.volrunoff_cm              = 0.0;
-- 
2.43.0


From 4a428b5d44a4109cbe03b997e93344f3af471c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:13 +0000
Subject: [PATCH 25/28] fix: set the conductivity of a wetting front that
 crosses into the next layer

A front crossing a layer boundary reuses the list element of the upper layer's
bottom front. Its water content, suction, depth and speed were set, but the
conductivity stayed that of the upper layer's bottom front, unless the suction
exceeded 1 cm and the update at the end of the step replaced it. A saturated or
nearly saturated front therefore moved on with the conductivity of the dry soil
of the layer above (or more than the saturated conductivity of its own).
---
 src/lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index ef555e1..492ca6a 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1698,7 +1698,7 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
       double next_vg_a      = soil_properties[soil_num_next].vg_alpha_per_cm;
       double next_vg_m      = soil_properties[soil_num_next].vg_m;
       double next_vg_n      = soil_properties[soil_num_next].vg_n;
-      //double next_Ksat_cm_per_h  = soil_properties[soil_num_next].Ksat_cm_per_h * frozen_factor[current->layer_num]; 
+      double next_Ksat_cm_per_h  = soil_properties[soil_num_next].Ksat_cm_per_h * frozen_factor[layer_num+1];
 
       double Se = calc_Se_from_theta(current->theta,theta_e, theta_r);
       current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
@@ -1720,6 +1720,7 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
       
       next->theta = theta_new;
       next->psi_cm = current->psi_cm;
+      next->K_cm_per_h = calc_K_from_Se(calc_Se_from_theta(theta_new, next_theta_e, next_theta_r), next_Ksat_cm_per_h, next_vg_m);
       next->depth_cm = depth_new;
       next->layer_num = layer_num + 1;
       next->dzdt_cm_per_h = current->dzdt_cm_per_h;
-- 
2.43.0


From 7a06283431244ae99baf4fdbae30514e9275a9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:20 +0000
Subject: [PATCH 26/28] fix: the standalone driver runs the last forcing
 interval when the division rounds down

---
 src/bmi_main_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index a106c8b..e542ce3 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -77,7 +77,7 @@ int main(int argc, char *argv[])
   // get time steps
   double endtime = model_state.GetEndTime();
   double timestep = model_state.GetTimeStep();
-  int nsteps = int(endtime/timestep); // total number of time steps
+  int nsteps = int(endtime/timestep + 1.0E-8); // total number of time steps; not one less when the division rounds down
 
   std::vector<std::string> time;
   std::vector<double> precipitation;
-- 
2.43.0


From 09e775f864e1c6e87e781eb6b182f13ea92c165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:45 +0000
Subject: [PATCH 27/28] fix: define the spacing and origin of the uniform grid

---
 src/lgar.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 492ca6a..0927312 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -77,6 +77,8 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   InitFromConfigFile(config_file, state);
   state->lgar_bmi_params.shape[0] = state->lgar_bmi_params.num_layers;
   state->lgar_bmi_params.shape[1] = state->lgar_bmi_params.num_wetting_fronts;
+  state->lgar_bmi_params.spacing[0] = 1.0;
+  state->lgar_bmi_params.origin[0]  = 0.0;
 
   // initial number of wetting fronts are same are number of layers
   state->lgar_bmi_params.num_wetting_fronts           = state->lgar_bmi_params.num_layers;
-- 
2.43.0


From efcec5a5b2688263db2b9f0b2d1ff6bae67b72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:35 +0000
Subject: [PATCH 28/28] fix: start the cumulative groundwater discharge from
 zero

---
 src/lgar.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 0927312..dbc0751 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -141,6 +141,7 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   state->lgar_bmi_params.precip_previous_timestep_cm = 0.0;
   state->lgar_mass_balance.volQ_gw_timestep_cm       = 0.0; /* setting flux from groundwater_reservoir_to_stream to zero,
 							       will be non-zero when groundwater reservoir is added/simulated */
+  state->lgar_mass_balance.volQ_gw_cm                = 0.0;
   state->lgar_mass_balance.volchange_calib_cm        = 0.0;
 }
 
-- 
2.43.0

