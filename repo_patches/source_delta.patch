From d6d8c747c85e4c60390be2f0500fb51df0a2d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 01/55] fix: scale lattice vectors (rows), not cartesian
 columns, when expanding the cell

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 3d5b51e..66a9f2d 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -88,7 +88,7 @@ class Structure:
     def get_cell(self, supercell=None):
 
         if supercell is not None:
-            return np.dot(self._cell, np.diag(supercell))
+            return np.dot(np.diag(supercell), self._cell)
 
         return self._cell
 
-- 
2.43.0


From 99faf267fef0bec6cde00a9166f23e2fbfcfc7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 02/55] fix: direct Fourier spectrum used a real exponent and
 counted each term twice

---
 c/correlation.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index 02261d5..c6771f2 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -155,19 +155,17 @@ double EvaluateCorrelation (double Frequency, _Dcomplex * Velocity, int NumberOf
     _Dcomplex Correl_i, Correl_j;
     for (int i = 0; i < NumberOfData; i += Increment) {
         for (int j = 0; j < (NumberOfData-i-Increment); j++) {
-            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
-            Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
             switch (IntMethod) {
                 case 0: //	Trapezoid Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1)));
-                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency * (i+Increment), 1)));
-                    Correl = _Cbuild(creal(Correl) + creal(Correl_i) + creal(Correl_j), cimag(Correl) + cimag(Correl_i) + cimag(Correl_j));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(0, Frequency * ((i+Increment)*TimeStep))));
+                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency * (i*TimeStep))));
+                    Correl = _Cbuild(creal(Correl) + (creal(Correl_i) + creal(Correl_j))/2.0, cimag(Correl) + (cimag(Correl_i) + cimag(Correl_j))/2.0);
 
-                    //Correl += (conj(Velocity[j]) * Velocity[j+i+Increment] * cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1))
+                    //Correl += (conj(Velocity[j]) * Velocity[j+i+Increment] * cexp(_Complex_I*Frequency * ((i+Increment)*TimeStep))
                     //           +   conj(Velocity[j]) * Velocity[j+i]           * cexp(_Complex_I*Frequency * (i*TimeStep) ))/2.0 ;
                     break;
                 case 1: //	Rectangular Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
                     Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
                     // Correl +=  conj(Velocity[j]) * Velocity[j+i] * cexp(_Complex_I*Frequency * (i*TimeStep));
                     break;
-- 
2.43.0


From bafb5d99f5ee822ba898a715f0d060c74ffa1355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 03/55] fix: integer division in the normalisation of the
 direct Fourier spectrum

---
 c/correlation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/correlation.c b/c/correlation.c
index c6771f2..b30a39a 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -172,7 +172,7 @@ double EvaluateCorrelation (double Frequency, _Dcomplex * Velocity, int NumberOf
             }
         }
     }
-    return  creal(Correl) * TimeStep/(NumberOfData/Increment);
+    return  creal(Correl) * TimeStep * Increment / NumberOfData;
 }
 
 /*
-- 
2.43.0


From 68ee771ab7c603a26e546e1357ca39773f724ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 04/55] fix: report invalid arguments of correlation_par as
 exceptions and release its arrays

---
 c/correlation.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index b30a39a..a1bf408 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -134,9 +134,16 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
 
     double *PowerSpectrum  = (double*)PyArray_DATA((PyArrayObject *)PowerSpectrum_object);
 
-    // Maximum Entropy Method Algorithm
     if (IntMethod < 0 || IntMethod > 1) {
-        puts ("\nIntegration method selected does not exist\n");
+        PyErr_SetString(PyExc_ValueError, "Integration method selected does not exist");
+    } else if (Increment < 1) {
+        PyErr_SetString(PyExc_ValueError, "step should be a positive number");
+    }
+
+    if (PyErr_Occurred()) {
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        Py_DECREF(PowerSpectrum_object);
         return NULL;
     }
 
@@ -145,6 +152,10 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
         AngularFrequency = Frequency[i]*2.0*M_PI;
         PowerSpectrum[i] = EvaluateCorrelation(AngularFrequency, Velocity, NumberOfData, TimeStep, Increment, IntMethod);
     }
+    // Free python memory
+    Py_DECREF(velocity_array);
+    Py_DECREF(frequency_array);
+
     //Returning Python array
     return(PyArray_Return(PowerSpectrum_object));
 }
-- 
2.43.0


From a7db5445a677eb3ea7ee80fc2ae6a90ff9a77105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 05/55] fix: maximum entropy method read the velocity shifted
 by one element, past its end

---
 c/mem.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index ba344f2..ceb5148 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -207,15 +207,12 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
     double  *wkm = malloc(NumberOfCoefficients*sizeof(double));
 
 
-    for (j=1; j <= NumberOfData; j++) p += pow(Data[j], 2);
+    for (j=1; j <= NumberOfData; j++) p += pow(Data[j-1], 2);
     MeanSquareDiscrepancy = p / NumberOfData;
 
-    wk1[1] = Data[1];
-    wk2[NumberOfData-1] = Data[NumberOfData];
-
-    for (j=2; j <= NumberOfData-1; j++) {
-        wk1[j]=Data[j];
-        wk2[j-1]=Data[j];
+    for (j=1; j <= NumberOfData-1; j++) {
+        wk1[j]=Data[j-1];
+        wk2[j]=Data[j];
     }
 
     for (k=1; k <= NumberOfCoefficients; k++) {
-- 
2.43.0


From a8645c30226b381df98f86bf310f7d54fa982003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 06/55] fix: release the work arrays of the maximum entropy
 method

---
 c/mem.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/mem.c b/c/mem.c
index ceb5148..744b6ff 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -173,6 +173,7 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
 
     // Free memory
     free(Velocity_r);
+    free(Velocity_i);
     free(Coefficients_r);
     free(Coefficients_i);
 
@@ -223,7 +224,10 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
             Denominator += pow(wk1[j],2) + pow(wk2[j], 2);
         }
 
-        if (fabs(Denominator) < 1.0e-6) return 0.0;
+        if (fabs(Denominator) < 1.0e-6) {
+            MeanSquareDiscrepancy = 0.0;
+            break;
+        }
 
         Coefficients[k] = 2.0 * Numerator / Denominator;
 
-- 
2.43.0


From 46d4df5e37d8c7788851f811b0ede28a883c3d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 07/55] fix: release the work arrays of the minimum-image
 displacements

---
 c/displacements.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/displacements.c b/c/displacements.c
index a1ecf21..1ae7eed 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -106,7 +106,7 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     PyObject *Positions_array = PyArray_FROM_OTF(Positions_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     PyObject *Cell_array = PyArray_FROM_OTF(Cell_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
 
-    if (Cell_array == NULL || Trajectory_array == NULL) {
+    if (Cell_array == NULL || Trajectory_array == NULL || Positions_array == NULL) {
          Py_XDECREF(Cell_array);
          Py_XDECREF(Trajectory_array);
          Py_XDECREF(Positions_array);
@@ -184,7 +184,8 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     //Free memory
     for (int k=0 ; k<NumberOfDimensions; k++) free(Difference[k]); free(Difference);
     for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_i[k]); free(Cell_i);
- 	free(Cell_c);
+    for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_c[k]); free(Cell_c);
+    free(Displacement);
 
     // Free python memory
     Py_DECREF(Trajectory_array);
@@ -260,6 +261,9 @@ static double  **matrix_inverse ( double ** a ,int n){
 		}
 	}
 
+    for (int i = 0; i < n; i++) free(cof[i]);
+    free(cof);
+
 	return b;
 
 };
-- 
2.43.0


From ca2e75c2bea2ae3149868ae555918102c45090a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 08/55] fix: compare unit cell masses when classifying the
 atoms of the unit cell

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 66a9f2d..7b055c8 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -285,7 +285,7 @@ class Structure:
     def get_atom_type_index(self, supercell=None):
 
         # Tolerance for accepting equivalent atoms in super cell
-        masses = self.get_masses(supercell=supercell)
+        masses = self.get_masses()
         tolerance = 0.001
         if self._atom_type_index is None:
             primitive_cell_inverse = np.linalg.inv(self.get_primitive_cell())
-- 
2.43.0


From d2988afc75a1f4e48fd6d5cb510099174f75224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 09/55] fix: displacement tensor cache ignored the reference
 positions requested and cropping

---
 dynaphopy/dynamics.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 9771bcf..6d45eca 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -28,7 +28,7 @@ class Dynamics:
         self._relative_trajectory = None
         self._supercell_matrix = None
         self._number_of_atoms = None
-        self._mean_displacement_matrix = None
+        self._mean_displacement_matrix = {}
 
         if structure is not None:
             self._structure = structure
@@ -93,6 +93,7 @@ class Dynamics:
         self.velocity = self.velocity[-last_steps:, :, :]
 
         self._velocity_mass_average = None
+        self._mean_displacement_matrix = {}
 
         if self._memmap:
             filename = self._relative_trajectory.filename
@@ -206,7 +207,7 @@ class Dynamics:
 
     def get_mean_displacement_matrix(self, use_average_positions=False):
 
-        if self._mean_displacement_matrix is None:
+        if use_average_positions not in self._mean_displacement_matrix:
 
             atom_type = self.structure.get_atom_type_index()
             number_atom_primitive_equivalent = np.unique(atom_type, return_counts=True)[1]
@@ -234,9 +235,10 @@ class Dynamics:
                                                                              displacements[:, i, :] - position_difference[i]
                                                                              ).real / primtive_normalization
 
-            self._mean_displacement_matrix = mean_displacement_matrix / (number_of_equivalent_atoms * number_of_data)
+            self._mean_displacement_matrix[use_average_positions] = (mean_displacement_matrix /
+                                                                     (number_of_equivalent_atoms * number_of_data))
 
-        return self._mean_displacement_matrix
+        return self._mean_displacement_matrix[use_average_positions]
 
     def average_positions(self, number_of_samples=None, to_unit_cell=False):
 
-- 
2.43.0


From 87f441ec7e850b0ba7fe72460ad9d5de03642dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 10/55] fix: average unit cell positions over all the
 equivalent atoms

---
 dynaphopy/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 6d45eca..407b30e 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -272,12 +272,12 @@ class Dynamics:
             index_type = self.structure.get_atom_type_index(supercell=supercell)
 
             number_of_atom_types = self.structure.get_number_of_atom_types()
-            normalization = np.prod(supercell)
+            normalization = np.unique(index_type, return_counts=True)[1]
 
             averaged_unit_cell = np.zeros((number_of_atom_types, number_of_dimensions), dtype=complex)
 
             for i, coordinates  in enumerate(averaged_positions):
-                averaged_unit_cell[index_type[i], :] += coordinates/normalization
+                averaged_unit_cell[index_type[i], :] += coordinates/normalization[index_type[i]]
 
             averaged_positions = []
             for i in range(positions.shape[0]):
-- 
2.43.0


From fe5eedc37f1e57295d31fa35ff762b4892e877f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 11/55] fix: random_integers is not available in current numpy
 versions

---
 dynaphopy/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 407b30e..c7b76d0 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -256,7 +256,7 @@ class Dynamics:
             if length < number_of_samples:
                 number_of_samples = length
             normalized_trajectory = normalized_trajectory
-            samples = np.random.random_integers(length, size=(number_of_samples,))-1
+            samples = np.random.randint(length, size=(number_of_samples,))
             normalized_trajectory = normalized_trajectory[samples, :]
 
         averaged_positions = np.average(normalized_trajectory, axis=0)
-- 
2.43.0


From 9e1669b5dca67c4906e634fa2235520f6775ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 12/55] fix: clear results that depend on the atom type
 projected and on the steps used

---
 dynaphopy/__init__.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1ffe149..0986d59 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -27,6 +27,7 @@ class Quasiparticle:
 
         self._dynamic = dynamic
         self._vc = vc
+        self._vc_provided = vc is not None
         self._eigenvectors = None
         self._frequencies = None
         self._vq = None
@@ -39,6 +40,7 @@ class Quasiparticle:
         self._renormalized_force_constants = None
         self._commensurate_points_data = None
         self._temperature = None
+        self._temperature_provided = False
         self._force_constants_qha = None
         self._parameters = parameters.Parameters()
         self.crop_trajectory(last_steps)
@@ -46,11 +48,15 @@ class Quasiparticle:
 
     # Crop trajectory
     def crop_trajectory(self, last_steps):
-        if self._vc is None:
+        self.velocity_projection_clear()
+        if not self._temperature_provided:
+            self._temperature = None
+
+        if not self._vc_provided:
             self._dynamic.crop_trajectory(last_steps)
             print("Using {0} steps".format(len(self._dynamic.velocity)))
         else:
-            if last_steps is not None:
+            if last_steps is not None and last_steps > 0:
                 self._vc = self._vc[-last_steps:, :, :]
             print("Using {0} steps".format(len(self._vc)))
 
@@ -59,12 +65,21 @@ class Quasiparticle:
         self._eigenvectors = None
         self._frequencies = None
         self._vc = None
+        self._vc_provided = False
         self._vq = None
         self._power_spectrum_direct = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_phonon = None
 
+    def velocity_projection_clear(self):
+        # A velocity projection provided by the user can not be calculated again
+        if not self._vc_provided:
+            self._vc = None
+        self._vq = None
+        self.power_spectra_clear()
+
     def power_spectra_clear(self):
+        self._power_spectrum_partials = None
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
@@ -131,6 +146,8 @@ class Quasiparticle:
 
     def set_projection_onto_atom_type(self, atom_type):
         if atom_type in range(self.dynamic.structure.get_number_of_primitive_atoms()):
+            if atom_type != self.parameters.project_on_atom:
+                self.velocity_projection_clear()
             self.parameters.project_on_atom = atom_type
         else:
             print('Atom type {} does not exist'.format(atom_type))
@@ -1093,6 +1110,7 @@ class Quasiparticle:
 
     def set_temperature(self, temperature):
         self._temperature = temperature
+        self._temperature_provided = temperature is not None
 
     def get_algorithm_list(self):
         return power_spectrum_functions.values()
-- 
2.43.0


From 694b6bb1ca347978d63c9ee3ad669b630d46c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 13/55] fix: full spectrum cached for one projected direction
 was returned for another

---
 dynaphopy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 0986d59..241abc2 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -34,6 +34,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_direct_coordinate = -1
         self._power_spectrum_partials = None
         self._bands = None
         self._renormalized_bands = None
@@ -801,7 +802,8 @@ class Quasiparticle:
         number_of_dimensions = self.dynamic.structure.get_number_of_dimensions()
         projected_atom_type = self.parameters.project_on_atom
 
-        if self._power_spectrum_direct is None:
+        if self._power_spectrum_direct is None or projection_on_coordinate != self._power_spectrum_direct_coordinate:
+            self._power_spectrum_direct_coordinate = projection_on_coordinate
             print("Calculation full power spectrum")
 
             velocity_mass_average = self.dynamic.get_velocity_mass_average()
-- 
2.43.0


From d4dc94a973baa8d142d039b54359ef7683b66efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 14/55] fix: normalise the harmonic density of states used in
 the free energy correction

---
 dynaphopy/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 241abc2..ccd9811 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1309,6 +1309,13 @@ class Quasiparticle:
                                                              projected_on_atom=self.parameters.project_on_atom,
                                                              NAC=self.parameters.use_NAC)
 
+            if normalize_dos:
+                phonopy_dos_h[1] /= simps(phonopy_dos_h[1], x=phonopy_dos_h[0]) / (
+                        self.dynamic.structure.get_number_of_atoms() *
+                        self.dynamic.structure.get_number_of_dimensions())
+                if self.parameters.project_on_atom > -1:
+                    phonopy_dos_h[1] /= self.dynamic.structure.get_number_of_primitive_atoms()
+
             free_energy += thm.get_free_energy_correction_dos(temperature, phonopy_dos_h[0], phonopy_dos_h[1],
                                                               phonopy_dos[1])
             total_energy += thm.get_free_energy_correction_dos(temperature, phonopy_dos_h[0], phonopy_dos_h[1],
-- 
2.43.0


From 73db51eab7ea8785ac69c163f3e90cc0e5a09dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 15/55] fix: clear the renormalised data when thermal expansion
 force constants are set

---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index ccd9811..63d8140 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1471,6 +1471,7 @@ class Quasiparticle:
 
     # QHA methods
     def set_qha_force_constants(self, fc_qha_file):
+        self.force_constants_clear()
         self._force_constants_qha = pho_interface.get_force_constants_from_file(fc_qha_file,
                                                                                 fc_supercell=self.dynamic.structure.get_supercell_phonon())
 
-- 
2.43.0


From b2aa46f50977f4f98f7c4b53b739f26527d0253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 16/55] fix: pass the band paths, not the dictionary holding
 them, when printing the bands

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 63d8140..04c1ea6 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -588,7 +588,7 @@ class Quasiparticle:
     def print_phonon_dispersion_bands(self):
         if self._bands is None:
             self._bands = pho_interface.obtain_phonon_dispersion_bands(self.dynamic.structure,
-                                                                       self.get_band_ranges_and_labels(),
+                                                                       self.get_band_ranges_and_labels()['ranges'],
                                                                        NAC=self.parameters.use_NAC)
         np.set_printoptions(linewidth=200)
         for i, freq in enumerate(self._bands[1]):
-- 
2.43.0


From 3796bd5ff358b8fd1d9b69c75448128c956bd98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 17/55] fix: write the centre of each bin in the atomic
 displacements file

---
 dynaphopy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 04c1ea6..10f4abb 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1096,7 +1096,9 @@ class Quasiparticle:
 
     def write_atomic_displacements(self, direction, file_name):
         distributions, distance = self.get_atomic_displacements(direction)
-        reading.write_curve_to_file(distance, distributions.T, file_name)
+        # distance is half a bin below the lower limit of each bin
+        centers = distance[:-1] + (distance[1] - distance[0])
+        reading.write_curve_to_file(centers, distributions.T, file_name)
 
     # Molecular dynamics analysis related methods
     def show_boltzmann_distribution(self):
-- 
2.43.0


From 257b5e68308d460358b26ea45831f65830c71692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 18/55] fix: skip the steps before the initial cut when reading
 an OUTCAR

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 550f507..3489c18 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -74,9 +74,6 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
         while True:
 
             counter +=1
-            #Initial cut control
-            if initial_cut > counter:
-                continue
 
             position_number=file_map.find(b'POSITION')
             if position_number < 0 : break
@@ -85,6 +82,10 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             file_map.readline()
             file_map.readline()
 
+            #Initial cut control
+            if initial_cut > counter:
+                continue
+
             read_coordinates = []
             for i in range (number_of_atoms):
                 read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-- 
2.43.0


From efa60a4035b42ac14c69949edec85b197d542005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 19/55] fix: create the memory map of an XDATCAR once, not at
 every step

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 3489c18..01415b7 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -414,6 +414,13 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
         for i in range(1): file_map.readline()
         number_of_atoms = np.array(file_map.readline().split(), dtype=int).sum()
 
+        if memmap:
+            if end_cut:
+                data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+            else:
+                print('Memory mapping requires to define reading range (use read_from/read_to option)')
+                exit()
+
         while True:
 
             counter += 1
@@ -424,14 +431,6 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             file_map.seek(position_number)
             time.append(float(file_map.readline().split(b'=')[1]))
 
-            if memmap:
-                if end_cut:
-                    data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
-                else:
-                    print('Memory mapping requires to define reading range (use read_from/read_to option)')
-                    exit()
-
-
             #Initial cut control
             if initial_cut > counter:
                 continue
-- 
2.43.0


From 2e59c2382af27534c52968b0d3d8622fb1a204e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 20/55] fix: drop the times of the steps before the initial cut
 when reading an XDATCAR

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 01415b7..08b2f34 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -433,6 +433,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
             #Initial cut control
             if initial_cut > counter:
+                time = []
                 continue
 
             #Reading coordinates
-- 
2.43.0


From 80854ebf84ea499e1066938e60b8901e329ef59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 21/55] fix: apply the scale factor of the XDATCAR to the cell

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 08b2f34..f5b72a3 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -405,11 +405,12 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
         file_map = mmap.mmap(f.fileno(), 0)
 
         #Read cell
-        for i in range(2): file_map.readline()
+        file_map.readline()
+        scale = float(file_map.readline())
         a = file_map.readline().split()
         b = file_map.readline().split()
         c = file_map.readline().split()
-        super_cell = np.array([a, b, c], dtype='double')
+        super_cell = np.array([a, b, c], dtype='double') * scale
 
         for i in range(1): file_map.readline()
         number_of_atoms = np.array(file_map.readline().split(), dtype=int).sum()
-- 
2.43.0


From a63d4f62758cf890602cca6b577964c83fa1dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 22/55] fix: keep only the steps read in memory mapped
 trajectories

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index f5b72a3..834a44b 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -326,7 +326,10 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        # the file may hold less steps than requested
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
         if last_steps is not None:
@@ -470,7 +473,10 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        # the file may hold less steps than requested
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
         if last_steps is not None:
-- 
2.43.0


From 5da82ad13d6423a29b48c8268ff7478c9354b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 23/55] fix: read the times of the same steps as the data from
 hdf5 files

---
 dynaphopy/interface/iofile/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 047f259..584b45e 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -702,6 +702,11 @@ def initialize_from_hdf5_file(file_name, structure, read_trajectory=True, initia
         print("Load trajectory projected onto {0}".format(reduced_q_vector))
 
     time = hdf5_file['time'][:]
+    if final_cut is not None:
+        time = time[initial_cut-1:final_cut]
+    else:
+        time = time[initial_cut-1:]
+
     supercell = hdf5_file['super_cell'][:]
     hdf5_file.close()
 
-- 
2.43.0


From 853301e632a3e1209b1e1f122b65a8c1ea593c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 24/55] fix: crop of memory mapped trajectories without
 relative trajectory

---
 dynaphopy/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index c7b76d0..fe92147 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -95,7 +95,7 @@ class Dynamics:
         self._velocity_mass_average = None
         self._mean_displacement_matrix = {}
 
-        if self._memmap:
+        if self._memmap and self._relative_trajectory is not None:
             filename = self._relative_trajectory.filename
             self._relative_trajectory = None
             try:
-- 
2.43.0


From efbd06f7b3183f598c58f6ce78eee1f9aa349575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 25/55] fix: crop the time together with the projected velocity

---
 dynaphopy/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 10f4abb..76b4b39 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -59,6 +59,8 @@ class Quasiparticle:
         else:
             if last_steps is not None and last_steps > 0:
                 self._vc = self._vc[-last_steps:, :, :]
+                if self._dynamic.get_time() is not None:
+                    self._dynamic.set_time(self._dynamic.get_time()[-last_steps:])
             print("Using {0} steps".format(len(self._vc)))
 
     # Memory clear methods
-- 
2.43.0


From f5a668fd7fbd99e541b04347b6d5a6da682e0529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 26/55] fix: join the times of the files in concath5

---
 scripts/concath5 | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scripts/concath5 b/scripts/concath5
index e9e6a80..440056b 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -101,11 +101,20 @@ if vc is not None:
 if trajectory is not None:
     trajectory = trajectory[first:]
 
+time_step = time[1] - time[0] if len(time) > 1 else 0.0
+time = time[first:]
+
 print(args.input[0])
 
 for arg in args.input[1:]:
     print(arg)
-    new_vc, new_velocity, new_trajectory = read_file_hdf5(arg)[0:3]
+    new_vc, new_velocity, new_trajectory, new_time = read_file_hdf5(arg)[0:4]
+
+    # each file continues the previous one with the same time step
+    new_time = new_time[first:]
+    if len(time) > 0 and len(new_time) > 0:
+        new_time = new_time - new_time[0] + time[-1] + time_step
+    time = np.concatenate((time, new_time), axis=0)
 
     if trajectory is not None:
         trajectory = np.concatenate((trajectory, new_trajectory[first:]), axis=0)
-- 
2.43.0


From 3e274ae0f6ffcb34410bfacf80a77b5298dc6ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 27/55] fix: memory mapped objects of one process shared their
 files

---
 dynaphopy/dynamics.py                            |  6 +++---
 dynaphopy/interface/iofile/trajectory_parsers.py | 12 ++++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index fe92147..0aa5f14 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -144,7 +144,7 @@ class Dynamics:
     def get_velocity_mass_average(self):
         if self._velocity_mass_average is None:
             if self._memmap:
-                self._velocity_mass_average = np.memmap(self._temp_directory+'velocity_mass.{0}'.format(os.getpid()),
+                self._velocity_mass_average = np.memmap(self._temp_directory+'velocity_mass.{0}.{1}'.format(os.getpid(), id(self)),
                                                         dtype='complex', mode='w+', shape=self.velocity.shape)
             else:
                 self._velocity_mass_average = np.empty_like(self.velocity)
@@ -168,7 +168,7 @@ class Dynamics:
 
 
             if self._memmap:
-                normalized_trajectory = np.memmap(self._temp_directory+'r_trajectory.{0}'.format(os.getpid()),
+                normalized_trajectory = np.memmap(self._temp_directory+'r_trajectory.{0}.{1}'.format(os.getpid(), id(self)),
                                                   dtype='complex', mode='w+', shape=trajectory.shape)
             else:
                 normalized_trajectory = self.trajectory.copy()
@@ -317,7 +317,7 @@ class Dynamics:
         if self._velocity is None:
             print('No velocity provided! calculating it from coordinates...')
             if self._memmap:
-                self._velocity = np.memmap(self._temp_directory+'velocity.{0}'.format(os.getpid()),
+                self._velocity = np.memmap(self._temp_directory+'velocity.{0}.{1}'.format(os.getpid(), id(self)),
                                            dtype='complex',
                                            mode='w+',
                                            shape=self.get_relative_trajectory().shape)
diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 834a44b..5ed05c6 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -1,10 +1,18 @@
 import os
 import numpy as np
 import mmap
+import tempfile
 import dynaphopy.dynamics as dyn
 import warnings
 
 
+# Memory mapped trajectories alive at the same time need different files
+def get_temporary_file_name(temp_directory):
+    handle, file_name = tempfile.mkstemp(prefix='trajectory.{0}.'.format(os.getpid()), dir=temp_directory or '.')
+    os.close(handle)
+    return file_name
+
+
 # VASP OUTCAR file parser
 def read_vasp_trajectory(file_name, structure=None, time_step=None,
                          limit_number_steps=10000000,  # Maximum number of steps read (for security)
@@ -277,7 +285,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
                 if memmap:
                     if end_cut:
-                        data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                        data = np.memmap(get_temporary_file_name(temp_directory), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
                     else:
                         print('Memory mapping requires to define reading range (use read_from/read_to option)')
                         exit()
@@ -420,7 +428,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
         if memmap:
             if end_cut:
-                data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                data = np.memmap(get_temporary_file_name(temp_directory), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
             else:
                 print('Memory mapping requires to define reading range (use read_from/read_to option)')
                 exit()
-- 
2.43.0


From 391195de31fe653d030ccf24a6ca6ea8e58c4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 28/55] fix: remove all the files of memory mapped objects

---
 dynaphopy/dynamics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 0aa5f14..f603d4b 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -53,12 +53,15 @@ class Dynamics:
     def __del__(self):
         #Clean all temporal files from memmap
         if self._memmap:
-            for mapped_array in [self._velocity, self._trajectory, self._relative_trajectory, self._velocity_mass_average]:
+            for mapped_array in [self._velocity, self._trajectory, self._scaled_trajectory,
+                                 self._relative_trajectory, self._velocity_mass_average]:
                 try:
                     filename = mapped_array.filename
                 except AttributeError:
                     continue
                 del mapped_array
+                if filename is None or not os.path.exists(filename):
+                    continue
                 os.remove(filename)
 
 # A bit messy, has to be fixed
-- 
2.43.0


From f66ba996234b4add210b25aa30969ed8e3d059de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 29/55] Revert "fix: write the centre of each bin in the atomic
 displacements file"

This reverts commit 3796bd5ff358b8fd1d9b69c75448128c956bd98b.
---
 dynaphopy/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 76b4b39..23cba2d 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1098,9 +1098,7 @@ class Quasiparticle:
 
     def write_atomic_displacements(self, direction, file_name):
         distributions, distance = self.get_atomic_displacements(direction)
-        # distance is half a bin below the lower limit of each bin
-        centers = distance[:-1] + (distance[1] - distance[0])
-        reading.write_curve_to_file(centers, distributions.T, file_name)
+        reading.write_curve_to_file(distance, distributions.T, file_name)
 
     # Molecular dynamics analysis related methods
     def show_boltzmann_distribution(self):
-- 
2.43.0


From 8c32019f2cd0d50226efb8776ee86ac665c52326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 30/55] fix: species that appear more than once in the POSCAR
 written

---
 dynaphopy/generate_cell.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dynaphopy/generate_cell.py b/dynaphopy/generate_cell.py
index f527ec0..9525b51 100644
--- a/dynaphopy/generate_cell.py
+++ b/dynaphopy/generate_cell.py
@@ -1,3 +1,4 @@
+import itertools
 import numpy as np
 
 
@@ -7,13 +8,9 @@ def generate_VASP_structure(structure, scaled=False, supercell=(1, 1, 1)):
 
     types = structure.get_atomic_elements(supercell=supercell)
 
-    atom_type_unique = np.unique(types, return_index=True)
-
-    # To use unique without sorting
-    sort_index = np.argsort(atom_type_unique[1])
-    elements = np.array(atom_type_unique[0])[sort_index]
-    elements_count= np.diff(np.append(np.array(atom_type_unique[1])[sort_index], [len(types)]))
-
+    # Consecutive atoms of the same element (an element may appear more than once)
+    elements = [element for element, group in itertools.groupby(types)]
+    elements_count = [len(list(group)) for element, group in itertools.groupby(types)]
 
     vasp_POSCAR = 'Generated using dynaphopy\n'
     vasp_POSCAR += '1.0\n'
-- 
2.43.0


From 90afd7de0a1dd4376e58ec03e77d64657b6c3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 31/55] fix: forget what depends on the cell, positions and
 masses when these are set

---
 dynaphopy/atoms.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 7b055c8..133d3fb 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -83,7 +83,13 @@ class Structure:
 
     # Cell related methods
     def set_cell(self, cell):
+        # Atoms keep their scaled positions
+        if self._positions is not None:
+            self.get_scaled_positions()
+            self._positions = None
         self._cell = np.array(cell, dtype='double')
+        self._primitive_cell = None
+        self._forget_atom_types()
 
     def get_cell(self, supercell=None):
 
@@ -118,10 +124,13 @@ class Structure:
     # Cell matrix related methods
     def set_primitive_matrix(self,primitive_matrix):
         self._primitive_matrix = primitive_matrix
+        self._forget_atom_types()
+        self._primitive_cell = None
+
+    def _forget_atom_types(self):
         self._number_of_atom_types = None
         self._number_of_primitive_atoms = None
         self._atom_type_index = None
-        self._primitive_cell = None
 
     def get_primitive_matrix(self):
         if self._primitive_matrix is None:
@@ -135,6 +144,8 @@ class Structure:
     # Positions related methods
     def set_positions(self, cart_positions):
         self._scaled_positions = np.dot(cart_positions, np.linalg.inv(self.get_cell()))
+        self._positions = None
+        self._forget_atom_types()
 
     def get_positions(self, supercell=None):
         if self._positions is None:
@@ -197,6 +208,7 @@ class Structure:
 
     def set_masses(self, masses):
         self._masses = np.array(masses, dtype='double')
+        self._forget_atom_types()
 
     def get_masses(self, supercell=None):
         if supercell is None:
-- 
2.43.0


From 271ab1c200180be77bd15ec977cc34ee1e95a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 32/55] fix: deviations of opposite sign hid a simulation cell
 that does not match

---
 dynaphopy/dynamics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index f603d4b..00934f8 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -196,14 +196,16 @@ class Dynamics:
 
         if self._supercell_matrix is None:
             supercell_matrix_real = np.divide(parameters(self.get_supercell()), parameters(self.structure.get_cell()))
-            self._supercell_matrix = np.around(supercell_matrix_real).astype("int")
+            supercell_matrix = np.around(supercell_matrix_real).astype("int")
 
-            if abs(sum(self._supercell_matrix - supercell_matrix_real)/np.linalg.norm(supercell_matrix_real)) > tolerance:
-                print(abs(sum(self._supercell_matrix - supercell_matrix_real) / np.linalg.norm(supercell_matrix_real)))
+            deviation = np.max(np.abs(supercell_matrix - supercell_matrix_real))/np.linalg.norm(supercell_matrix_real)
+            if deviation > tolerance:
+                print(deviation)
                 print('Warning! Defined unit cell and MD supercell do not match!')
                 print('Cell size relation is not integer: {0}'.format(supercell_matrix_real))
                 exit()
 
+            self._supercell_matrix = supercell_matrix
             print('MD cell size relation: {0}'.format(self._supercell_matrix))
 
         return self._supercell_matrix
-- 
2.43.0


From ab5b748d264ae92c0459abb5bb2d8a65b1d9ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 33/55] fix: give phonopy the masses of the structure and the
 pitch of the projected density of states

---
 dynaphopy/interface/phonopy_link.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index d5c647e..c628cc9 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -140,6 +140,7 @@ def get_phonon(structure, NAC=False, setup_forces=True, custom_supercell=None, s
     # Preparing the bulk type object
     bulk = PhonopyAtoms(symbols=structure.get_atomic_elements(),
                         scaled_positions=structure.get_scaled_positions(),
+                        masses=structure.get_masses(),
                         cell=structure.get_cell())
 
     phonon = PhonopyLegacy(bulk, super_cell_phonon,
@@ -221,7 +222,7 @@ def obtain_phonopy_dos(structure, mesh=(40, 40, 40), force_constants=None,
 
     else:
         phonon.run_mesh(mesh, with_eigenvectors=True, is_mesh_symmetry=False)
-        phonon.run_projected_dos(freq_min=freq_min, freq_max=freq_max)
+        phonon.run_projected_dos(freq_min=freq_min, freq_max=freq_max, freq_pitch=freq_pitch)
 
         if projected_on_atom >= len(phonon.get_projected_dos_dict()['projected_dos']):
             print('No atom type {0}'.format(projected_on_atom))
-- 
2.43.0


From 7b3b29c6fde93022de174ccb20401469586c5f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 34/55] fix: save_renormalized_frequencies was stored under
 another name

---
 dynaphopy/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/parameters.py b/dynaphopy/parameters.py
index a8e014c..7868725 100644
--- a/dynaphopy/parameters.py
+++ b/dynaphopy/parameters.py
@@ -268,7 +268,7 @@ class Parameters(metaclass=Singleton):
 
     @save_renormalized_frequencies.setter
     def save_renormalized_frequencies(self, save_renormalized_frequencies):
-        self._save_renormalized_frequenciese = save_renormalized_frequencies
+        self._save_renormalized_frequencies = save_renormalized_frequencies
 
     @property
     def mesh_phonopy(self):
-- 
2.43.0


From 84dfe25b4b7a51219b668db29b3ba07072515473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 35/55] fix: option fcsymm sets symmetrize

---
 scripts/dynaphopy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dynaphopy b/scripts/dynaphopy
index b108877..4720273 100755
--- a/scripts/dynaphopy
+++ b/scripts/dynaphopy
@@ -299,7 +299,7 @@ calculation.parameters.get_data_from_dict(input_parameters)
 
 # Set Parameters
 calculation.parameters.silent = args.silent
-calculation.parameters.degenerate = args.fcsymm
+calculation.parameters.symmetrize = args.fcsymm
 calculation.parameters.use_MD_cell_commensurate = args.MD_commensurate
 calculation.parameters.save_renormalized_frequencies = args.save_renormalized_frequencies
 calculation.parameters.use_NAC = args.nac
-- 
2.43.0


From 6fd93728ab8b009a938e229ff5fce8f9182b5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 36/55] fix: scale factor of cartesian coordinates in POSCAR

---
 dynaphopy/interface/iofile/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 584b45e..3c92f10 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -320,6 +320,10 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
         atomic_types = [item for sublist in atomic_types for item in sublist]
         # atomic_types = np.array(atomic_types).flatten().tolist()
 
+    # The scale factor also applies to cartesian coordinates
+    if positions is not None:
+        positions *= multiply
+
     return atomtest.Structure(cell=direct_cell,  # cell_matrix, lattice vectors in rows
                               scaled_positions=scaled_positions,
                               positions=positions,
-- 
2.43.0


From c31bc9ea91882fe9ab893d5bac46f61137dbce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 37/55] fix: band labels and the lines that follow the bands in
 the input file

---
 dynaphopy/interface/iofile/__init__.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 3c92f10..8a951e4 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -581,21 +581,15 @@ def read_parameters_from_input_file(file_name, number_of_dimensions=3):
         if "BANDS" in line:
             bands = []
             labels = []
-            while i < len(input_file)-1:
-                line = input_file[i + 1].replace('\n', '')
+            for band_line in input_file[i+1:]:
+                path, _, label = band_line.replace('\n', '').partition(':')
                 try:
-                    labels.append(line.split(':')[1].replace('\n','').split(','))
-                    line = line.split(':')[0]
-                except:
-                    pass
-                try:
-                    band = np.array(line.replace(',',' ').split(), dtype=float).reshape((2,3))
-                except IOError:
-                    break
+                    band = np.array(path.replace(',',' ').split(), dtype=float).reshape((2,3))
                 except ValueError:
                     break
-                i += 1
                 bands.append(band)
+                if label != '':
+                    labels.append(label.split(','))
             labels = [(label[0].replace(' ',''), label[1].replace(' ','')) for label in labels]
 
             if labels != []:
-- 
2.43.0


From 2832e325ecb7bb9af9fb70314e7577c6c53e896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 38/55] fix: order of the atoms in LAMMPS is a permutation to
 be inverted

---
 dynaphopy/interface/lammps_link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index a2ec130..0c2ce90 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -94,7 +94,7 @@ def generate_lammps_trajectory(structure,
 
     na = lmp.get_natoms()
     id = lmp.extract_atom("id", 0)
-    id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+    id = np.argsort([id[i] for i in range(na)])  # local index of each atom
 
     xp = lmp.extract_atom("x", 3)
     reference = np.array([[xp[i][0], xp[i][1], xp[i][2]] for i in range(na)], dtype=float)[id, :]
@@ -123,7 +123,7 @@ def generate_lammps_trajectory(structure,
         energy.append(lmp.extract_variable('energy', 'all', 0))
 
         id = lmp.extract_atom("id", 0)
-        id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+        id = np.argsort([id[i] for i in range(na)])  # local index of each atom
 
         vc = lmp.extract_atom("v", 3)
         velocity.append(np.array([[vc[i][0], vc[i][1], vc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :])
-- 
2.43.0


From 81dc752edcec0d338f9283e6a51b415d751d2681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 39/55] fix: supercell used to sort the atoms was guessed from
 the positions

---
 dynaphopy/interface/iofile/__init__.py | 12 +++++++++---
 dynaphopy/interface/lammps_link.py     |  5 ++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 8a951e4..a3906a7 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -35,12 +35,13 @@ def check_atoms_order(filename, trajectory_reading_function, structure):
     # Only using first step
     reference = trajectory.trajectory[0]
 
-    template = get_correct_arrangement(reference, structure)
+    template = get_correct_arrangement(reference, structure,
+                                       supercell=trajectory.get_supercell_matrix())
 
     return template
 
 
-def get_correct_arrangement(reference, structure):
+def get_correct_arrangement(reference, structure, supercell=None):
 
     # print structure.get_scaled_positions()
     scaled_coordinates = []
@@ -51,7 +52,12 @@ def get_correct_arrangement(reference, structure):
 
     number_of_cell_atoms = structure.get_number_of_atoms()
     number_of_supercell_atoms = len(scaled_coordinates)
-    supercell_dim = np.array(np.round(np.max(scaled_coordinates, axis=0)), dtype=int)
+
+    if supercell is None:
+        # Guess from the positions, fails if all atoms are close to the origin of the unit cell
+        supercell_dim = np.array(np.round(np.max(scaled_coordinates, axis=0)), dtype=int)
+    else:
+        supercell_dim = np.array(supercell, dtype=int)
 
     unit_cell_scaled_coordinates = scaled_coordinates - np.array(scaled_coordinates, dtype=int)
 
diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index 0c2ce90..c190cc2 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -102,7 +102,10 @@ def generate_lammps_trajectory(structure,
     # xc = lmp.gather_atoms("x", 1, 3)
     # reference = np.array([xc[i] for i in range(na*3)]).reshape((na,3))
 
-    template = get_correct_arrangement(reference, structure)
+    supercell_matrix = np.around(np.linalg.norm(simulation_cell, axis=1) /
+                                 np.linalg.norm(structure.get_cell(), axis=1)).astype(int)
+
+    template = get_correct_arrangement(reference, structure, supercell=supercell_matrix)
     indexing = np.argsort(template)
 
     lmp.command('variable energy equal pe'.format(int(relaxation_time/time_step)))
-- 
2.43.0


From 0d183f7c9ca6a3c926ac5fe8ad2ca758016be95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 40/55] fix: rfc_calc rebuilds force constants for the
 supercell given with --dim

---
 scripts/rfc_calc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 35f78ab..b39a526 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -43,7 +43,9 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
     structure.get_data_from_dict(input_parameters)
 
     fc_supercell = structure.get_supercell_phonon()
-    if args.dim is None:
+    if args.dim is not None:
+        fc_supercell = np.diag(args.dim)
+    else:
         if 'supercell_phonon' in input_parameters:
             fc_supercell = input_parameters['supercell_phonon']
         else:
-- 
2.43.0


From 84cc1f3cd4be429682aaae5efa015df4b0565295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 41/55] fix: rfc_calc reads the quasiparticle files that are
 written, by wave vector

---
 scripts/rfc_calc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index b39a526..f0cd289 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -60,12 +60,13 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
     with open(freq_filename, 'r') as stream:
         data_dict = yaml.safe_load(stream)
         for wv in com_points:
-            for q_point in data_dict.values():
-                # print q_point
-                # print q_point['frequencies']
-                if np.array(q_point['reduced_wave_vector'] == wv).all():
+            for q_point in data_dict:
+                # the file holds 8 digits of each wave vector
+                if np.allclose(q_point['reduced_wave_vector'], wv, rtol=0, atol=1e-6):
                     renormalized_frequencies.append(q_point['frequencies'])
-                    # com_points.append(q_point['reduced_wave_vector'])
+                    break
+            else:
+                raise Exception('Wave vector {} not found in {}'.format(wv, freq_filename))
 
     renormalized_frequencies = np.array(renormalized_frequencies)
     #com_points = np.array(com_points)
-- 
2.43.0


From f2445168a437e839f257419d404aa508cb249579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 42/55] fix: qha_extract pairs each force constants file with
 its own volume

---
 scripts/qha_extract | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/qha_extract b/scripts/qha_extract
index 7178267..c7a4d37 100755
--- a/scripts/qha_extract
+++ b/scripts/qha_extract
@@ -128,7 +128,7 @@ for filename in fc_filenames:
     force_constants = phonopy_link.get_force_constants_from_file(filename, fc_supercell=fc_supercell)
     force_constants_mat.append(force_constants.get_array())
 
-force_constants_mat = np.array(force_constants_mat).T
+force_constants_mat = np.array(force_constants_mat)[sort_index].T
 f_temperature = interp1d(volumes, force_constants_mat, kind='quadratic')
 
 # Get force constants at the requested temperature
-- 
2.43.0


From 8ccb363cb261e7b00a068fcf0cb3d6b802cfa10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:53 +0000
Subject: [PATCH 43/55] fix: masses in an OUTCAR were taken from the first
 pseudopotential

---
 dynaphopy/interface/iofile/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index a3906a7..232af13 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -216,7 +216,9 @@ def read_from_file_structure_outcar(file_name):
         atoms_per_type = np.array(file_map.readline().split(),dtype=int)
 
         # Reading atoms  mass
-        position_number = file_map.find(b'POMASS =')
+        # (the masses of all types are listed in one line, after those of each pseudopotential)
+        position_number = file_map.find(b'Mass of Ions in am')
+        position_number = file_map.find(b'POMASS =', max(position_number, 0))
         atomic_mass_per_type = []
         for i in range(atoms_per_type.shape[0]):
             file_map.seek(position_number+9+6*i)
-- 
2.43.0


From 7552e9d63896097baab67611ff4dc8f67d2c2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:35 +0000
Subject: [PATCH 44/55] fix: initial phase of the test trajectory scaled its
 amplitude

---
 dynaphopy/interface/iofile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 232af13..8c73225 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -420,7 +420,7 @@ def generate_test_trajectory(structure, supercell=(1, 1, 1),
                 if abs(frequencies_r[i_long][i_freq]) > minimum_frequency: # Prevent error due to small frequencies
                     amplitude = np.sqrt(number_of_dimensions * kb_boltzmann * temperature / number_of_primitive_cells * atoms_relation)/(frequencies_r[i_long][i_freq] * 2 * np.pi) # + random.uniform(-1,1)*0.05
                     normal_mode = amplitude * np.exp(-1j * frequencies_r[i_long][i_freq] * 2.0 * np.pi * time)
-                    phase = np.exp(1j * np.dot(q_vector, positions.T) + phase_0)
+                    phase = np.exp(1j * (np.dot(q_vector, positions.T) + phase_0))
 
                     coordinates += (1.0 / np.sqrt(masses)[None].T *
                                    eigenvectors_r[i_long][i_freq, atom_type] *
-- 
2.43.0


From 015fa7cd66b4362ef4a7f22cefbc33992a085aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 45/55] fix: extra quasiparticle data stayed in the files
 written later

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 23cba2d..0adb5f3 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1263,7 +1263,7 @@ class Quasiparticle:
         pho_interface.save_force_constants_to_file(force_constants, filename)
 
     def write_quasiparticles_data(self, filename="quasiparticles_data.yaml", with_extra=False):
-        quasiparticle_data = self.get_commensurate_points_data()
+        quasiparticle_data = dict(self.get_commensurate_points_data())
         if with_extra:
             quasiparticle_data.update(self.get_commensurate_points_properties())
         reading.save_quasiparticle_data_to_file(quasiparticle_data, filename)
-- 
2.43.0


From f046188a1c89f8acfffe830349a205c851cd092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 46/55] fix: time axes of figures end at the last step, not one
 step later

---
 dynaphopy/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 0adb5f3..0214d6b 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -673,7 +673,7 @@ class Quasiparticle:
         plt.ylabel('$u^{1/2}\AA/ps$')
 
         time = np.linspace(0, self.get_vc().shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.get_vc().shape[0])
+                           num=self.get_vc().shape[0], endpoint=False)
 
         for mode in modes:
             plt.plot(time, self.get_vq()[:, mode].real, label='mode: ' + str(mode))
@@ -686,7 +686,7 @@ class Quasiparticle:
         if not coordinates:
             coordinates = [0]
         time = np.linspace(0, self.get_vc().shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.get_vc().shape[0])
+                           num=self.get_vc().shape[0], endpoint=False)
 
         plt.suptitle('Wave vector projection')
         plt.xlabel('Time [ps]')
@@ -967,7 +967,7 @@ class Quasiparticle:
 
         plt.suptitle('Trajectory')
         time = np.linspace(0, self.dynamic.trajectory.shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.dynamic.trajectory.shape[0])
+                           num=self.dynamic.trajectory.shape[0], endpoint=False)
         for atom in atoms:
             for coordinate in coordinates:
                 plt.plot(time, self.dynamic.trajectory[:, atom, coordinate].real,
@@ -984,7 +984,7 @@ class Quasiparticle:
 
         plt.suptitle('Velocity')
         time = np.linspace(0, self.dynamic.velocity.shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.dynamic.velocity.shape[0])
+                           num=self.dynamic.velocity.shape[0], endpoint=False)
 
         for atom in atoms:
             for coordinate in coordinates:
-- 
2.43.0


From e1b6a951f9404c0f698270b05ff81eb38631be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 47/55] fix: arrows of the modes use the mass of their own atom

---
 dynaphopy/analysis/modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/modes.py b/dynaphopy/analysis/modes.py
index 73dcd61..bef3add 100644
--- a/dynaphopy/analysis/modes.py
+++ b/dynaphopy/analysis/modes.py
@@ -76,7 +76,7 @@ def plot_phonon_modes(structure, eigenvectors, q_vector,
         for i, position in enumerate(positions):
             eigenvector_atom = np.array(eigenvectors[i_phonon, atom_type[i], :])
             phase = 1.j * np.dot(position, q_vector)
-            vector = (eigenvector_atom / np.sqrt(masses[atom_type[i]]) * np.exp(phase) * vectors_scale).real
+            vector = (eigenvector_atom / np.sqrt(masses[i]) * np.exp(phase) * vectors_scale).real
  #           vector = np.dot(vector, np.linalg.inv(structure.get_primitive_matrix().T))
             a = Arrow3D([position[0], position[0]+vector[0]], [position[1], position[1]+vector[1]],
                         [position[2], position[2]+vector[2]], mutation_scale=20, lw=3, arrowstyle="-|>", color="r")
-- 
2.43.0


From e0b4561f31081a1db187f3ce13df1ddc803536be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 48/55] fix: number of coefficients chosen in the menu reaches
 computed spectra

---
 dynaphopy/interface/interactive_ui.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dynaphopy/interface/interactive_ui.py b/dynaphopy/interface/interactive_ui.py
index 809e984..8ae16d7 100755
--- a/dynaphopy/interface/interactive_ui.py
+++ b/dynaphopy/interface/interactive_ui.py
@@ -308,8 +308,7 @@ def interactive_interface(calculation, trajectory, args, structure_file):
 
                 # SUB OPT 3 : # Number of MEM coefficients
                 if x2 == ord('3'):
-               # calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
-                    calculation.parameters.number_of_coefficients_mem = int(get_param(screen, "Insert number of coefficients"))
+                    calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
                     curses.endwin()
 
                 # SUB OPT 4 : # Number of bins histogram (coordinates and Boltzmann dist.)
-- 
2.43.0


From 3a0e16c2ff07b00fa7203dcdb388f084a9ced5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 49/55] fix: fitdata keeps the first row of the file

---
 scripts/fitdata | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/fitdata b/scripts/fitdata
index 6fd8ee5..3920510 100755
--- a/scripts/fitdata
+++ b/scripts/fitdata
@@ -64,6 +64,7 @@ except IOError:
 if args.bi is None:
     data_num = len(input_file.readline().split())
     degeneracy = [[i] for i in range(1, data_num)]
+    input_file.seek(0)
 else:
     degeneracy = [[int(j) for j in i.split()] for i in ' '.join(args.bi).split(',')]
 
-- 
2.43.0


From 30ee1ece99f51f700e96bd1a88f2072864b228d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 50/55] fix: rfc_calc -p with BANDS in the input file

---
 scripts/rfc_calc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index f0cd289..67411be 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -85,7 +85,7 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
 def plot_renormalized_phonon_bands(structure, renormalized_force_constants):
 
     if '_band_ranges' in input_parameters:
-        band_ranges = input_parameters['_band_ranges']
+        band_ranges = input_parameters['_band_ranges']['ranges']
     else:
         band_ranges = structure.get_path_using_seek_path()['ranges']
 
-- 
2.43.0


From c912c4f94cec36637e324b0aa17e744034125dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 51/55] fix: rfc_calc hides the axis of the figure it has drawn

---
 scripts/rfc_calc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 67411be..8f0a3a5 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -102,8 +102,8 @@ def plot_renormalized_phonon_bands(structure, renormalized_force_constants):
     for i,freq in enumerate(renormalized_bands[1]):
         plt.plot(bands[1][i],bands[2][i],color ='b', label='Harmonic (0K)')
         plt.plot(renormalized_bands[1][i],renormalized_bands[2][i],color ='r', label='Renormalized')
-        plt.axes().get_xaxis().set_visible(False)
-    plt.axes().get_xaxis().set_ticks([])
+        plt.gca().get_xaxis().set_visible(False)
+    plt.gca().get_xaxis().set_ticks([])
     plt.ylabel('Frequency [THz]')
     plt.xlabel('Wave vector')
     plt.xlim([0, renormalized_bands[1][-1][-1]])
-- 
2.43.0


From 3ba609741fab7a52e80adaf4c4814ef414b498c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 52/55] fix: elements from masses that differ slightly from the
 tabulated ones

---
 dynaphopy/atoms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 133d3fb..71092cd 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -56,9 +56,9 @@ class Structure:
         if atomic_elements is None and masses is not None:
             self._atomic_elements = []
             for i in masses:
-                for j in atom_data:
-                    if "{0:.1f}".format(i) == "{0:.1f}".format(j[3]):
-                        self._atomic_elements.append(j[1])
+                # Masses given in the input files may differ slightly from the ones in the table
+                nearest = min([j for j in atom_data if j[3] > 0], key=lambda j: abs(j[3] - i))
+                self._atomic_elements.append(nearest[1])
 
         # Get atomic numbers and masses from available information
         if atomic_numbers is None and self._atomic_elements is not None:
-- 
2.43.0


From c311632ac9d9a276df66f9e5ec5f981d52ea1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 53/55] fix: size of the supercell of force sets when its
 matrix is not diagonal

---
 dynaphopy/atoms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 71092cd..c332be3 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -198,7 +198,9 @@ class Structure:
 
         if not isinstance(self._force_sets,type(None)):
             force_atoms_file = self._force_sets.get_dict()['natom']
-            force_atoms_input = np.prod(np.diagonal(self._force_sets.get_supercell())) * self.get_number_of_atoms()
+            # The supercell matrix may not be diagonal
+            number_of_cells = int(np.round(np.abs(np.linalg.det(self._force_sets.get_supercell()))))
+            force_atoms_input = number_of_cells * self.get_number_of_atoms()
 
             if force_atoms_file != force_atoms_input:
                 print("Error: FORCE_SETS file does not match with SUPERCELL MATRIX")
-- 
2.43.0


From 29d87438e8a3d1aa532d299f2f08fdddae589c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:10 +0000
Subject: [PATCH 54/55] fix: forget the atom types and primitive cell when the
 primitive matrix is read

---
 dynaphopy/atoms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index c332be3..7bfa157 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -81,6 +81,9 @@ class Structure:
             except KeyError:
                 continue
 
+        if '_primitive_matrix' in data_dictionary:
+            self.set_primitive_matrix(data_dictionary['_primitive_matrix'])
+
     # Cell related methods
     def set_cell(self, cell):
         # Atoms keep their scaled positions
-- 
2.43.0


From d0430998aafd48c097c585b0bc2cb3c299ab8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:15 +0000
Subject: [PATCH 55/55] fix: average time step kept after cropping a trajectory

---
 dynaphopy/dynamics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 00934f8..d82cd3f 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -89,6 +89,7 @@ class Dynamics:
             self._energy = self._energy[-last_steps:]
         if self._time is not None:
             self._time = self._time[-last_steps:]
+            self._time_step_average = None
 
         if last_steps > self.velocity.shape[0]:
             print("Warning: specified step number larger than available")
-- 
2.43.0

