From 87aa26cd39493bd0d7a4d7adf92d5c9febb0bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 01/33] fix: symmetry operations on non-orthogonal lattices

Fractional rotations were applied transposed to (row-vector) positions and
without a matching translation, polarizabilities were rotated with fractional
instead of Cartesian rotations, and orthogonality of equivalent displacements
was evaluated in fractional coordinates. For hexagonal, trigonal, primitive
cubic, P2_13, ... structures this gave non-orthogonal or wrong degrees of
freedom and wrong polarizabilities.
---
 ramannoodle/pmodel/_interpolation.py |  8 +++----
 ramannoodle/structure/_reference.py  | 32 ++++++++++++++++++++++++----
 ramannoodle/structure/utils.py       |  2 +-
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 3714a8a..5ce51d2 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -301,6 +301,7 @@ class InterpolationModel(PolarizabilityModel):
             self._ref_structure.get_equivalent_displacements(parent_displacement)
         )
 
+        lattice = self._ref_structure.lattice
         basis_vectors: list[NDArray[np.float64]] = []
         interpolation_xs: list[list[float]] = []
         interpolation_ys: list[list[NDArray[np.float64]]] = []
@@ -323,12 +324,11 @@ class InterpolationModel(PolarizabilityModel):
 
                 for amplitude, polarizability in zip(amplitudes, polarizabilities):
                     interpolation_x.append(multiplier * amplitude)
-                    rotation = transformation[0]
+                    # Polarizabilities are Cartesian, so rotation must be as well.
+                    rotation = lattice.T @ transformation[0] @ np.linalg.inv(lattice.T)
                     delta_polarizability = polarizability - self._ref_polarizability
 
-                    interpolation_y.append(
-                        (np.linalg.inv(rotation) @ delta_polarizability @ rotation)
-                    )
+                    interpolation_y.append(rotation @ delta_polarizability @ rotation.T)
 
             child_cart_basis_vector = self._ref_structure.get_cart_displacement(
                 child_displacement
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 98cbd7e..8142dda 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -23,6 +23,28 @@ from ramannoodle.constants import ATOM_SYMBOLS
 from ramannoodle.structure import _symmetry_utils
 
 
+def _invert_operations(
+    rotations: NDArray[np.int32], translations: NDArray[np.float64]
+) -> tuple[NDArray[np.int32], NDArray[np.float64]]:
+    """Return inverses of a space group's operations.
+
+    Operations map fractional column vectors, i.e. x --> rotation @ x + translation.
+    An inverse operation remains valid if combined with any of the space group's pure
+    translations, and the original translation is kept if it is such a choice.
+    """
+    is_pure_translation = (rotations == np.eye(3)).all(axis=(1, 2))
+    pure_translations = translations[is_pure_translation]
+
+    inverse_rotations = np.rint(np.linalg.inv(rotations)).astype(rotations.dtype)
+    inverse_translations = -np.einsum("ijk,ik->ij", inverse_rotations, translations)
+    for index, translation in enumerate(translations):
+        offset = translation - inverse_translations[index]
+        mismatch = apply_pbc_displacement(offset - pure_translations)
+        if np.isclose(mismatch, 0, atol=1e-5).all(axis=1).any():
+            inverse_translations[index] = translation
+    return inverse_rotations, inverse_translations
+
+
 def _compute_permutation_matrices(
     rotations: NDArray[np.float64],
     translations: NDArray[np.float64],
@@ -118,8 +140,9 @@ class ReferenceStructure:
         if self._symmetry_dict is None:
             raise SymmetryException("Symmetry search failed. Check structure.")
 
-        self._rotations = self._symmetry_dict["rotations"]
-        self._translations = self._symmetry_dict["translations"]
+        self._rotations, self._translations = _invert_operations(
+            self._symmetry_dict["rotations"], self._symmetry_dict["translations"]
+        )
         self._permutation_matrices = _compute_permutation_matrices(
             self._rotations, self._translations, self._positions
         )
@@ -223,9 +246,10 @@ class ReferenceStructure:
                 candidate_positions,
             )
 
+            # Orthogonality is only meaningful in Cartesian coordinates
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-                candidate_displacement.flatten(),
-                [item.flatten() for item in orthogonal_displacements],
+                (candidate_displacement @ self._lattice).flatten(),
+                [(item @ self._lattice).flatten() for item in orthogonal_displacements],
             )
 
             # If new orthogonal displacement discovered
diff --git a/ramannoodle/structure/utils.py b/ramannoodle/structure/utils.py
index daf10cc..eb6c0cc 100644
--- a/ramannoodle/structure/utils.py
+++ b/ramannoodle/structure/utils.py
@@ -98,7 +98,7 @@ def transform_positions(
     verify_positions("positions", positions)
     positions = apply_pbc(positions)
     try:
-        rotated = positions @ rotation
+        rotated = positions @ rotation.T
     except TypeError as exc:
         raise get_type_error("rotation", rotation, "ndarray") from exc
     except ValueError as exc:
-- 
2.43.0


From 7006f6453a364bf2ec484a7ff79bd2e0230b6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 02/33] fix: directions are no longer wrapped by periodic
 boundary conditions

Only the direction of a displacement passed to add_dof/add_art (and of
get_cart_direction/get_frac_direction) matters, but vectors longer than half a
cell were wrapped, changing their direction. get_cart_direction now also
returns shape (3,), as documented.
---
 ramannoodle/pmodel/_interpolation.py |  4 ++++
 ramannoodle/structure/_reference.py  | 11 +++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 5ce51d2..e1b8750 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -451,6 +451,10 @@ class InterpolationModel(PolarizabilityModel):
 
         """
         try:
+            # Only direction matters, so make sure displacement isn't wrapped.
+            cart_displacement = cart_displacement / (
+                np.linalg.norm(cart_displacement) * 10.0
+            )
             displacement = self.ref_structure.get_frac_displacement(cart_displacement)
 
             parent_displacement = displacement / np.linalg.norm(displacement * 10.0)
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 8142dda..fb5f5d4 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -11,7 +11,6 @@ from ramannoodle.exceptions import (
     get_type_error,
     verify_ndarray_shape,
     verify_list_len,
-    get_shape_error,
 )
 from ramannoodle.structure.utils import (
     displace_positions,
@@ -321,11 +320,8 @@ class ReferenceStructure:
         :
             (Å) Array with shape (3,).
         """
-        direction = apply_pbc_displacement(direction)
-        try:
-            return np.array([direction]) @ self._lattice
-        except ValueError as exc:
-            raise get_shape_error("direction", direction, "(3,)") from exc
+        verify_ndarray_shape("direction", direction, (3,))
+        return direction @ self._lattice
 
     def get_frac_displacement(
         self, cart_displacement: NDArray[np.float64]
@@ -362,8 +358,7 @@ class ReferenceStructure:
             (fractional) Array with shape (3,).
         """
         verify_ndarray_shape("direction", cart_direction, (3,))
-        displacement = np.array([cart_direction]) @ np.linalg.inv(self.lattice)
-        return apply_pbc_displacement(displacement[0])
+        return cart_direction @ np.linalg.inv(self.lattice)
 
     def get_atom_indexes(self, atom_symbols: str | list[str]) -> list[int]:
         """Return atom indexes with matching symbols.
-- 
2.43.0


From e7a6f01eee48b18c3a0193c75b6a3427f65a79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 03/33] fix: equivalent displacements of structures with loose
 symprec

Atoms were matched to their symmetry images to within 1e-5, regardless of the
tolerance used for the symmetry search. If no match was found, images were
displacements towards the origin.
---
 ramannoodle/structure/_reference.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index fb5f5d4..a384bc9 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -16,7 +16,6 @@ from ramannoodle.structure.utils import (
     displace_positions,
     transform_positions,
     apply_pbc_displacement,
-    calc_displacement,
 )
 from ramannoodle.constants import ATOM_SYMBOLS
 from ramannoodle.structure import _symmetry_utils
@@ -88,9 +87,9 @@ def _get_positions_permutation_matrix(
         displacement % 1 > 0.5, displacement % 1 - 1, displacement % 1
     )
     distance_matrix = np.sqrt(np.sum(displacement**2, axis=-1))
-    permutation_matrix = (distance_matrix < 1e-5).T
 
-    return permutation_matrix
+    # Match nearest, as positions are only symmetric to within the search's tolerance.
+    return np.eye(len(distance_matrix))[np.argmin(distance_matrix, axis=0)]
 
 
 class ReferenceStructure:
@@ -227,23 +226,14 @@ class ReferenceStructure:
         # Scale the displacement for numerical reasons.
         displacement = displacement / (np.linalg.norm(displacement) * 10)
 
-        ref_positions = displace_positions(self._positions, displacement)
-
         result = []
         orthogonal_displacements: list[NDArray[np.float64]] = []
         for rotation, translation, permutation_matrix in zip(
             self._rotations, self._translations, self._permutation_matrices
         ):
 
-            # Transform, permute, then get candidate displacement
-            candidate_positions = transform_positions(
-                ref_positions, rotation, translation
-            )
-            candidate_positions = permutation_matrix @ candidate_positions
-            candidate_displacement = calc_displacement(
-                self._positions,
-                candidate_positions,
-            )
+            # Rotate, then permute to get candidate displacement
+            candidate_displacement = permutation_matrix @ (displacement @ rotation.T)
 
             # Orthogonality is only meaningful in Cartesian coordinates
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-- 
2.43.0


From 119a21e1b5be4d783d80d80b0dd1971821724c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 04/33] fix: vasprun imaginary phonons have negative
 wavenumbers

---
 ramannoodle/io/vasp/vasprun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 5559f8c..b741d1b 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -343,8 +343,10 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
     eigenvalues = np.array([float(i) for i in element.text.split()])
+    # Stable modes have negative eigenvalues; imaginary modes get negative wavenumbers
+    signs = np.sign(-eigenvalues)
     eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
-    eigenvalues *= np.sign(eigenvalues)
+    eigenvalues *= signs
     return eigenvalues
 
 
-- 
2.43.0


From 1106750a6ade04ad3a711ea95616488b4d91f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 05/33] fix: list lengths are compared by value

---
 ramannoodle/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/exceptions.py b/ramannoodle/exceptions.py
index a900de9..a18b272 100644
--- a/ramannoodle/exceptions.py
+++ b/ramannoodle/exceptions.py
@@ -119,8 +119,8 @@ def verify_list_len(name: str, array: list[Any], length: int | None) -> None:
     """
     if not isinstance(array, list):
         raise get_type_error(name, array, "list")
-    if length is not None and len(array) is not length:
-        raise ValueError(f"{name} has wrong length: {len(array)} != length")
+    if length is not None and len(array) != length:
+        raise ValueError(f"{name} has wrong length: {len(array)} != {length}")
 
 
 def verify_positions(name: str, array: NDArray[Any]) -> None:
-- 
2.43.0


From 39440b4572e701539df4aecadc9dbdb08252b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 06/33] fix: interpolation models reject positions of the wrong
 shape

---
 ramannoodle/pmodel/_interpolation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index e1b8750..0e57485 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -211,6 +211,9 @@ class InterpolationModel(PolarizabilityModel):
 
         """
         try:
+            verify_ndarray_shape(
+                "positions", positions_batch, (None, self._ref_structure.num_atoms, 3)
+            )
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
             )
@@ -561,6 +564,9 @@ class InterpolationModel(PolarizabilityModel):
         for i, structure in enumerate(pymatgen_structures):
             positions = pymatgen_io.get_positions(structure)
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
@@ -671,6 +677,9 @@ class InterpolationModel(PolarizabilityModel):
                 polarizability = np.zeros((3, 3))
 
             try:
+                verify_ndarray_shape(
+                    "positions", positions, (self._ref_structure.num_atoms, 3)
+                )
                 displacement = calc_displacement(
                     self._ref_structure.positions,
                     positions,
-- 
2.43.0


From 0a56c1bcedb222b61f3e276355f771e4566b70f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 07/33] fix: spectra and masks do not share arrays with callers

---
 ramannoodle/pmodel/_interpolation.py | 2 +-
 ramannoodle/spectrum/_raman.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 0e57485..d4c2a50 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -186,7 +186,7 @@ class InterpolationModel(PolarizabilityModel):
             "masked" and excluded from polarizability calculations.
         """
         verify_ndarray_shape("mask", value, self._mask.shape)
-        self._mask = value
+        self._mask = value.copy()
 
     def calc_polarizabilities(
         self, positions_batch: NDArray[np.float64]
diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 8066e47..6b2f51a 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -191,7 +191,7 @@ class PhononRamanSpectrum(RamanSpectrum):
                 self._phonon_wavenumbers, temperature
             )
 
-        return self._phonon_wavenumbers, intensities
+        return self._phonon_wavenumbers.copy(), intensities
 
 
 class MDRamanSpectrum(RamanSpectrum):
@@ -224,7 +224,7 @@ class MDRamanSpectrum(RamanSpectrum):
         :
             Array with shape (S,3,3) where S is the number of configurations.
         """
-        return self._polarizability_ts
+        return self._polarizability_ts.copy()
 
     @property
     def timestep(self) -> float:
-- 
2.43.0


From 092a7f3ba0f87499caacb9dd75bf92db4c23a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 08/33] fix: rescaled polarizabilities keep the dataset's data
 type

---
 ramannoodle/dataset/torch/_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index b43d016..4e42ebd 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -214,7 +214,7 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         scaled /= torch.tensor(stddev)
         self._scaled_polarizabilities = (
             rn_torch_utils.polarizability_tensors_to_vectors(scaled)
-        )
+        ).type(torch.get_default_dtype())
 
     def __len__(self) -> int:
         """Get number of samples."""
-- 
2.43.0


From 3af2e7aaf542a1681add327e3392603c6e282d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 09/33] fix: dummy models without degrees of freedom cannot
 predict polarizabilities

---
 ramannoodle/pmodel/_interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index d4c2a50..52be571 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -231,6 +231,9 @@ class InterpolationModel(PolarizabilityModel):
                 "positions", positions_batch, f"(_,{self._ref_structure.num_atoms},3)"
             ) from exc
 
+        if self._is_dummy_model and len(self._cart_basis_vectors) == 0:
+            raise UserError("dummy model cannot calculate polarizabilities")
+
         try:
 
             for basis_vector, interpolation, mask in zip(
-- 
2.43.0


From fc3e5d2583e2cc71ec58e183b0563be885aaf7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 10/33] fix: spectra can be convolved onto integer wavenumbers

---
 ramannoodle/spectrum/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/spectrum/utils.py b/ramannoodle/spectrum/utils.py
index a5a796c..087b528 100644
--- a/ramannoodle/spectrum/utils.py
+++ b/ramannoodle/spectrum/utils.py
@@ -54,7 +54,7 @@ def convolve_spectrum(
         raise get_type_error("width", width, "float") from exc
     verify_ndarray("out_wavenumbers", out_wavenumbers)
 
-    convolved_intensities = out_wavenumbers * 0
+    convolved_intensities = out_wavenumbers * 0.0
     for wavenumber, intensity in zip(wavenumbers, intensities):
         factor = 0
         if function == "gaussian":
-- 
2.43.0


From 3c743c51429189fe3c0b7c27d4c9a91de56d3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 11/33] fix: unsupported array orientations raise
 NotImplementedError

---
 ramannoodle/spectrum/_raman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 6b2f51a..81d29fa 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -155,7 +155,7 @@ class PhononRamanSpectrum(RamanSpectrum):
             Raised when any orientation besides ``"polycrystalline"`` is supplied.
 
         """
-        if orientation != "polycrystalline":
+        if not isinstance(orientation, str) or orientation != "polycrystalline":
             raise NotImplementedError(
                 "only polycrystalline spectra are supported for now"
             )
@@ -273,7 +273,7 @@ class MDRamanSpectrum(RamanSpectrum):
             #.  intensities -- (arbitrary units) Array with shape (ceiling(S / 2),).
 
         """
-        if orientation != "polycrystalline":
+        if not isinstance(orientation, str) or orientation != "polycrystalline":
             raise NotImplementedError(
                 "only polycrystalline spectra are supported for now"
             )
-- 
2.43.0


From 5e03c55bee9f5427f57633e6d69c9eae0b84c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 12/33] fix: atomic Raman tensors from pymatgen verify
 polarizabilities

---
 ramannoodle/pmodel/_art.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 8e5752d..afa03e5 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -279,6 +279,11 @@ class ARTModel(InterpolationModel):
         displacements, amplitudes = super()._get_displacement_amplitudes_pymatgen(
             pymatgen_structures
         )
+        if self._is_dummy_model:
+            polarizabilities = np.zeros((len(amplitudes), 3, 3))
+        verify_ndarray_shape(
+            "polarizabilities", polarizabilities, (len(amplitudes), 3, 3)
+        )
 
         # Check whether only one atom is displaced.
         _displacement = displacements[0].copy()
-- 
2.43.0


From ecd79b33af6fb72798e7e242d1078ceaa88fa936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 13/33] fix: displaced structures reject displacements of the
 wrong shape

---
 ramannoodle/structure/_displace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramannoodle/structure/_displace.py b/ramannoodle/structure/_displace.py
index 184450c..8329179 100644
--- a/ramannoodle/structure/_displace.py
+++ b/ramannoodle/structure/_displace.py
@@ -55,6 +55,9 @@ def get_displaced_positions(
         cart_displacement = cart_displacement / float(np.linalg.norm(cart_displacement))
     except TypeError as err:
         raise get_type_error("cart_displacement", cart_displacement, "ndarray") from err
+    verify_ndarray_shape(
+        "cart_displacement", cart_displacement, (ref_structure.num_atoms, 3)
+    )
     verify_ndarray_shape("amplitudes", amplitudes, (None,))
 
     positions = []
-- 
2.43.0


From c2564e861970696c057a28a5fb800676ba62bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 14/33] fix: POSCAR scale factors apply to Cartesian positions
 and may be negative

---
 ramannoodle/io/vasp/poscar.py  | 37 +++++++++++++++++++++++++---------
 ramannoodle/io/vasp/xdatcar.py |  6 ++++--
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 24b1ff0..6f0bbc8 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -15,9 +15,15 @@ from ramannoodle.io.vasp.outcar import _get_lattice_vector_from_outcar_line
 # pylint: disable=R0801
 
 
-def _read_lattice(file: TextIO) -> NDArray[np.float64]:
+def _read_lattice(file: TextIO) -> tuple[NDArray[np.float64], float]:
     """Read all three lattice vectors (in angstroms) from a VASP POSCAR file.
 
+    Returns
+    -------
+    :
+        0.  lattice -- (Å) Array with shape (3,3).
+        #.  scale factor -- Applies to Cartesian positions as well.
+
     Raises
     ------
     InvalidFileException
@@ -40,7 +46,12 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
 
-    return np.array(lattice) * scale_factor
+    if scale_factor < 0:  # specifies (negative) cell volume
+        volume = abs(float(np.linalg.det(lattice)))
+        if volume == 0:
+            raise InvalidFileException("lattice vectors are linearly dependent")
+        scale_factor = float(np.cbrt(-scale_factor / volume))
+    return np.array(lattice) * scale_factor, scale_factor
 
 
 def _read_atomic_symbols(file: TextIO) -> list[str]:
@@ -80,7 +91,7 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
 
 
 def _read_positions(
-    file: TextIO, lattice: NDArray[np.float64], num_atoms: int
+    file: TextIO, lattice: NDArray[np.float64], scale_factor: float, num_atoms: int
 ) -> NDArray[np.float64]:
     """Read atomic symbols from a VASP POSCAR file.
 
@@ -116,7 +127,7 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return np.array(positions) @ np.linalg.inv(lattice)
+        return scale_factor * np.array(positions) @ np.linalg.inv(lattice)
     return np.array(positions)
 
 
@@ -143,9 +154,11 @@ def read_positions(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, scale_factor, len(atomic_symbols)
+        )
         return positions
 
 
@@ -167,10 +180,12 @@ def read_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, scale_factor, len(atomic_symbols)
+        )
         return lattice, atomic_numbers, positions
 
 
@@ -194,10 +209,12 @@ def read_ref_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, scale_factor, len(atomic_symbols)
+        )
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index dd2e6fc..bdd85ae 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -43,11 +43,13 @@ def read_positions_ts(
     filepath = pathify(filepath)
     positions_ts = []
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
             try:
-                positions = _read_positions(file, lattice, len(atomic_symbols))
+                positions = _read_positions(
+                    file, lattice, scale_factor, len(atomic_symbols)
+                )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
                 if "missing first character in coordinate format:" in str(exc):
-- 
2.43.0


From 9469bbfc356ed396de21412f7c2d89206bb6cfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 15/33] fix: malformed VASP files raise InvalidFileException

---
 ramannoodle/io/vasp/outcar.py  | 47 ++++++++++++++++++++-----
 ramannoodle/io/vasp/poscar.py  | 11 ++++--
 ramannoodle/io/vasp/vasprun.py | 64 ++++++++++++++++++++++++++++++----
 ramannoodle/io/vasp/xdatcar.py |  2 ++
 4 files changed, 105 insertions(+), 19 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index b552dea..c2960f6 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -76,16 +76,35 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
         line = _skip_file_until_line_contains(file, "ions per type")
         atomic_numbers = [int(item) for item in line.split()[4:]]
 
+        # We may have read too many symbols (see above), but never too few.
+        if not 1 <= len(atomic_numbers) <= len(potcar_symbols):
+            raise ValueError("wrong number of ion counts")
+        if min(atomic_numbers) < 0:
+            raise ValueError("ion count is negative")
+
         atomic_symbols = []
         for symbol, number in zip(potcar_symbols, atomic_numbers):
             atomic_symbols += [symbol] * number
         return atomic_symbols
-    except (NoMatchingLineFoundException, IndexError) as exc:
+    except (NoMatchingLineFoundException, IndexError, ValueError) as exc:
         raise InvalidFileException(
             f"ion number block could not be parsed: {line}"
         ) from exc
 
 
+def _get_vector_from_outcar_line(line: str) -> list[float]:
+    """Read three-component vector from the start of a line in a VASP OUTCAR file.
+
+    Raises
+    ------
+    ValueError
+    """
+    vector = [float(item) for item in line.split()[0:3]]
+    if len(vector) != 3:
+        raise ValueError("line does not have three components")
+    return vector
+
+
 def _read_eigenvector(
     file: TextIO, num_atoms: int, lattice: NDArray[np.float64]
 ) -> NDArray[np.float64]:
@@ -105,6 +124,8 @@ def _read_eigenvector(
             vector = [float(item) for item in line.split()[3:]]
             vector = vector @ np.linalg.inv(lattice)
             eigenvector.append(vector)
+        if len(eigenvector) != num_atoms:
+            raise ValueError("eigenvector is incomplete")
         return np.array(eigenvector)
     except (ValueError, IndexError) as exc:
         raise InvalidFileException(f"eigenvector could not be parsed: {line}") from exc
@@ -127,7 +148,7 @@ def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_coordinates.append([float(item) for item in line.split()[0:3]])
+            cart_coordinates.append(_get_vector_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"cartesian positions could not be parsed: {line}"
@@ -154,7 +175,7 @@ def _read_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            positions.append([float(item) for item in line.split()[0:3]])
+            positions.append(_get_vector_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"fractional positions could not be parsed: {line}"
@@ -185,7 +206,7 @@ def _read_polarizability(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            polarizability.append([float(item) for item in line.split()[0:3]])
+            polarizability.append(_get_vector_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"polarizability could not be parsed: {line}"
@@ -234,7 +255,7 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            lattice.append(_get_lattice_vector_from_outcar_line(line))
+            lattice.append(_get_vector_from_outcar_line(line))
         except (EOFError, ValueError) as exc:
             raise InvalidFileException(f"lattice could not be parsed: {line}") from exc
 
@@ -291,7 +312,12 @@ def read_phonons(filepath: str | Path) -> Phonons:
                     )
                 else:
                     wavenumbers.append(float(line.split()[7]))
-            except (NoMatchingLineFoundException, TypeError, IndexError) as exc:
+            except (
+                NoMatchingLineFoundException,
+                TypeError,
+                IndexError,
+                ValueError,
+            ) as exc:
                 raise InvalidFileException("eigenvalue could not be parsed") from exc
             eigenvectors.append(_read_eigenvector(file, num_atoms, lattice))
 
@@ -469,7 +495,7 @@ def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.flo
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_positions.append([float(item) for item in line.split()[0:3]])
+            cart_positions.append(_get_vector_from_outcar_line(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"Cartesian positions could not be parsed: {line}"
@@ -489,8 +515,11 @@ def _read_timestep(file: TextIO) -> float:
     except NoMatchingLineFoundException as exc:
         raise InvalidFileException("timestep not found") from exc
     try:
-        return float(line.split()[2])
-    except (IndexError, TypeError) as exc:
+        timestep = float(line.split()[2])
+        if timestep <= 0:
+            raise ValueError("timestep is not positive")
+        return timestep
+    except (IndexError, TypeError, ValueError) as exc:
         raise InvalidFileException(f"timestep could not be parsed: {line}") from exc
 
 
diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 6f0bbc8..dcc7b43 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -81,6 +81,8 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     for count in str_counts:
         try:
             int_counts.append(int(count))
+            if int_counts[-1] < 0:
+                raise ValueError("count is negative")
         except ValueError as err:
             raise InvalidFileException(f"could not parse counts: {line}") from err
 
@@ -108,9 +110,9 @@ def _read_positions(
         )
     if label[0].lower() == "s":  # selective dynamics
         label = file.readline()
-    if label[0].lower() == "c":
+    if label[:1].lower() == "c":
         cart_mode = True
-    elif label[0].lower() != "d":
+    elif label[:1].lower() != "d":
         raise InvalidFileException(f"unrecognized coordinate format: {label}")
 
     positions = []
@@ -127,7 +129,10 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return scale_factor * np.array(positions) @ np.linalg.inv(lattice)
+        try:
+            return scale_factor * np.array(positions) @ np.linalg.inv(lattice)
+        except np.linalg.LinAlgError as exc:
+            raise InvalidFileException("lattice is singular") from exc
     return np.array(positions)
 
 
diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index b741d1b..9e7666d 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -44,13 +44,31 @@ def _parse_atomic_symbols(root: Element) -> list[str]:
 
     atomic_symbols = []
     for child in set_element:
-        atomic_symbol = child[0].text
+        atomic_symbol = child.findtext("*")
         if atomic_symbol is None:
             raise InvalidFileException("child has no text")
+        if atomic_symbol.strip() not in ATOMIC_NUMBERS:
+            raise InvalidFileException(f"unrecognized atom symbol: {atomic_symbol}")
         atomic_symbols.append(atomic_symbol.strip())
     return atomic_symbols
 
 
+def _parse_vector(text: str, size: int = 3) -> list[float]:
+    """Parse vector from the text of a vasprun.xml Element.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    try:
+        vector = [float(i) for i in text.split()]
+    except ValueError as exc:
+        raise InvalidFileException(f"vector could not be parsed: {text}") from exc
+    if len(vector) != size:
+        raise InvalidFileException(f"vector has wrong size: {text}")
+    return vector
+
+
 def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
     """Parse atomic fractional positions from a vasprun.xml Element.
 
@@ -65,10 +83,25 @@ def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
         text = child.text
         if text is None:
             raise InvalidFileException("varray child text not found")
-        positions.append([float(i) for i in text.split()])
+        positions.append(_parse_vector(text))
+    if len(positions) == 0:
+        raise InvalidFileException("positions are empty")
     return np.array(positions)
 
 
+def _verify_num_positions(
+    positions: NDArray[np.float64], atomic_symbols: list[str]
+) -> None:
+    """Verify that each atom has a position.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    if len(positions) != len(atomic_symbols):
+        raise InvalidFileException("number of positions is inconsistent")
+
+
 def _parse_polarizability(root: Element) -> NDArray[np.float64]:
     """Parse polarizability from a vasprun.xml Element.
 
@@ -87,7 +120,9 @@ def _parse_polarizability(root: Element) -> NDArray[np.float64]:
         text = child.text
         if text is None:
             raise InvalidFileException("varray child text not found")
-        polarizability.append([float(i) for i in text.split()])
+        polarizability.append(_parse_vector(text))
+    if len(polarizability) != 3:
+        raise InvalidFileException("polarizability is incomplete")
     return np.array(polarizability)
 
 
@@ -109,7 +144,9 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
         text = child.text
         if text is None:
             raise InvalidFileException("varray child text not found")
-        lattice.append([float(i) for i in text.split()])
+        lattice.append(_parse_vector(text))
+    if len(lattice) != 3:
+        raise InvalidFileException("lattice is incomplete")
     return np.array(lattice)
 
 
@@ -188,6 +225,7 @@ def read_structure_and_polarizability(
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
         positions = _parse_positions(structure_varray)
+        _verify_num_positions(positions, atomic_symbols)
         polarizability = _parse_polarizability(root)
         return lattice, atomic_numbers, positions, polarizability
 
@@ -276,6 +314,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
         positions = _parse_positions(structure_varray)
+        _verify_num_positions(positions, atomic_symbols)
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
@@ -292,7 +331,10 @@ def _parse_timestep(root: Element) -> float:
     text = element.text
     if text is None:
         raise InvalidFileException("potim element has no text")
-    return float(text.strip())
+    timestep = _parse_vector(text, size=1)[0]
+    if timestep <= 0:
+        raise InvalidFileException(f"timestep is not positive: {text}")
+    return timestep
 
 
 def read_trajectory(filepath: str | Path) -> Trajectory:
@@ -322,6 +364,8 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
             if structure_varray is None:
                 raise InvalidFileException("structure varray not found")
             positions_ts.append(_parse_positions(structure_varray))
+            if positions_ts[-1].shape != positions_ts[0].shape:
+                raise InvalidFileException("number of atoms is inconsistent")
         if len(positions_ts) == 0:
             raise InvalidFileException("no trajectory found")
 
@@ -342,7 +386,10 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
         raise InvalidFileException("eigenvalues not found")
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
-    eigenvalues = np.array([float(i) for i in element.text.split()])
+    try:
+        eigenvalues = np.array([float(i) for i in element.text.split()])
+    except ValueError as exc:
+        raise InvalidFileException("eigenvalues could not be parsed") from exc
     # Stable modes have negative eigenvalues; imaginary modes get negative wavenumbers
     signs = np.sign(-eigenvalues)
     eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
@@ -367,7 +414,7 @@ def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
     for v in element:
         if v.text is None:
             raise InvalidFileException("eigenvector element has no text")
-        cart_eigenvector = np.array([float(i) for i in v.text.split()])
+        cart_eigenvector = np.array(_parse_vector(v.text, size=num_atoms * 3))
         cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
         eigenvectors.append(cart_eigenvector @ np.linalg.inv(lattice))
 
@@ -402,9 +449,12 @@ def read_phonons(filepath: str | Path) -> Phonons:
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
         ref_positions = _parse_positions(structure_varray)
+        _verify_num_positions(ref_positions, atomic_symbols)
 
         wavenumbers = _parse_eigenvalues(root)
         eigenvectors = _parse_eigenvectors(root)
+        if len(wavenumbers) != len(eigenvectors):
+            raise InvalidFileException("number of eigenvectors is inconsistent")
         displacements = eigenvectors / np.sqrt(atomic_weights)[:, np.newaxis]
 
         return Phonons(ref_positions, wavenumbers, displacements)
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index bdd85ae..4eaf8a5 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -55,6 +55,8 @@ def read_positions_ts(
                 if "missing first character in coordinate format:" in str(exc):
                     break
                 raise exc
+        if len(positions_ts) == 0:
+            raise InvalidFileException("no configurations found")
         return np.array(positions_ts)
 
 
-- 
2.43.0


From a6365cf1bd7a1eebca46e140afdb22aa4804da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 16/33] fix: pymatgen trajectories of displacements are
 converted to positions

---
 ramannoodle/io/pymatgen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ramannoodle/io/pymatgen.py b/ramannoodle/io/pymatgen.py
index 81d0354..c10fcf6 100644
--- a/ramannoodle/io/pymatgen.py
+++ b/ramannoodle/io/pymatgen.py
@@ -1,5 +1,7 @@
 """Functions for interacting with pymatgen."""
 
+import copy
+
 import numpy as np
 from numpy.typing import NDArray
 
@@ -185,4 +187,7 @@ def construct_trajectory(
             pymatgen_trajectory,
             "pymatgen.core.trajectory.Trajectory",
         ) from exc
+    if pymatgen_trajectory.coords_are_displacement:
+        pymatgen_trajectory = copy.deepcopy(pymatgen_trajectory)
+        pymatgen_trajectory.to_positions()
     return Trajectory(pymatgen_trajectory.coords, timestep)
-- 
2.43.0


From c44869aeb5500857065bdf2c60e73a28a9e927e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 17/33] fix: reference structures may have positions outside of
 the unit cell

---
 ramannoodle/structure/_reference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index a384bc9..95a065a 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -15,6 +15,7 @@ from ramannoodle.exceptions import (
 from ramannoodle.structure.utils import (
     displace_positions,
     transform_positions,
+    apply_pbc,
     apply_pbc_displacement,
 )
 from ramannoodle.constants import ATOM_SYMBOLS
@@ -51,6 +52,7 @@ def _compute_permutation_matrices(
     """Expresses a series of rotation/translations as permutation matrices."""
     # Ensure no atom is at unit cell boundary by shifting
     # center of mass
+    positions = apply_pbc(positions)
     center_of_mass_shift = np.array([0.5, 0.5, 0.5]) - np.mean(positions, axis=0)
 
     permutation_matrices = []
-- 
2.43.0


From 63956d239365c3260d408fedac7271aba10dac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 18/33] fix: structures that are not finite raise
 SymmetryException instead of crashing

---
 ramannoodle/structure/_reference.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 95a065a..fab85bc 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -133,7 +133,10 @@ class ReferenceStructure:
         self._lattice = lattice
         self._positions = positions
 
-        cell = (list(lattice), list(positions), atomic_numbers)
+        # spglib crashes on non-finite (and on huge) input
+        if not (np.isfinite(lattice).all() and np.isfinite(positions).all()):
+            raise SymmetryException("Structure is not finite. Check structure.")
+        cell = (list(lattice), list(apply_pbc(positions)), atomic_numbers)
         self._symmetry_dict: dict[str, NDArray[np.float64]] | None = (
             spglib.get_symmetry(cell, symprec=symprec, angle_tolerance=angle_tolerance)
         )
-- 
2.43.0


From 5cc3d3c43f651988d35f0b442d61af27b3422f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 19/33] fix: undecodable, empty, or singular VASP files raise
 InvalidFileException

---
 ramannoodle/io/vasp/outcar.py  | 17 +++++++++++------
 ramannoodle/io/vasp/poscar.py  |  8 +++++---
 ramannoodle/io/vasp/vasprun.py | 14 ++++++++------
 ramannoodle/io/vasp/xdatcar.py |  2 +-
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index c2960f6..53a3d58 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -81,6 +81,8 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
             raise ValueError("wrong number of ion counts")
         if min(atomic_numbers) < 0:
             raise ValueError("ion count is negative")
+        if sum(atomic_numbers) == 0:
+            raise ValueError("no ions")
 
         atomic_symbols = []
         for symbol, number in zip(potcar_symbols, atomic_numbers):
@@ -115,6 +117,7 @@ def _read_eigenvector(
     InvalidFileException
     """
     eigenvector: list[NDArray[np.float64]] = []
+    line = ""
     try:
         for line in file:
             if len(eigenvector) == num_atoms:
@@ -258,6 +261,8 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             lattice.append(_get_vector_from_outcar_line(line))
         except (EOFError, ValueError) as exc:
             raise InvalidFileException(f"lattice could not be parsed: {line}") from exc
+    if not abs(np.linalg.det(lattice)) > 0:
+        raise InvalidFileException("lattice vectors are linearly dependent")
 
     return np.array(lattice)
 
@@ -284,7 +289,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
     eigenvectors = []
 
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
 
         # get atom information
         atomic_symbols = _read_atomic_symbols(file)
@@ -356,7 +361,7 @@ def read_positions_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as outcar_file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as outcar_file:
         num_atoms = len(_read_atomic_symbols(outcar_file))
         positions = _read_positions(outcar_file, num_atoms)
         polarizability = _read_polarizability(outcar_file)
@@ -383,7 +388,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         num_atoms = len(_read_atomic_symbols(file))
         positions = _read_positions(file, num_atoms)
         return positions
@@ -418,7 +423,7 @@ def read_structure_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as outcar_file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as outcar_file:
         atomic_symbols = _read_atomic_symbols(outcar_file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         lattice = _read_lattice(outcar_file)
@@ -472,7 +477,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
         lattice = _read_lattice(file)
@@ -538,7 +543,7 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         atomic_symbols = _read_atomic_symbols(file)
         timestep = _read_timestep(file)
         lattice = _read_lattice(file)
diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index dcc7b43..05a237c 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -89,6 +89,8 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     result = []
     for symbol, int_count in zip(symbols, int_counts):
         result += [symbol] * int_count
+    if len(result) == 0:
+        raise InvalidFileException("no atoms found")
     return result
 
 
@@ -158,7 +160,7 @@ def read_positions(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         positions = _read_positions(
@@ -184,7 +186,7 @@ def read_structure(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -213,7 +215,7 @@ def read_ref_structure(
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 9e7666d..9c77a30 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -147,6 +147,8 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
         lattice.append(_parse_vector(text))
     if len(lattice) != 3:
         raise InvalidFileException("lattice is incomplete")
+    if not abs(np.linalg.det(lattice)) > 0:
+        raise InvalidFileException("lattice vectors are linearly dependent")
     return np.array(lattice)
 
 
@@ -177,7 +179,7 @@ def read_positions_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
@@ -216,7 +218,7 @@ def read_structure_and_polarizability(
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         atomic_symbols = _parse_atomic_symbols(root)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -275,7 +277,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
@@ -305,7 +307,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         Structural symmetry determination failed.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
         atomic_symbols = _parse_atomic_symbols(root)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
@@ -352,7 +354,7 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
 
         structures = root.iterfind("structure")
@@ -440,7 +442,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
         Invalid file.
     """
     filepath = pathify(filepath)
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         root = _get_root_element(file)
 
         atomic_symbols = _parse_atomic_symbols(root)
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index 4eaf8a5..21b19a3 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -42,7 +42,7 @@ def read_positions_ts(
     """
     filepath = pathify(filepath)
     positions_ts = []
-    with open(filepath, "r", encoding="utf-8") as file:
+    with open(filepath, "r", encoding="utf-8", errors="replace") as file:
         lattice, scale_factor = _read_lattice(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
-- 
2.43.0


From e5814deecda16d3799a0812868cfc8c8f592b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 20/33] fix: decide whether displacements are collinear in
 Cartesian coordinates

---
 ramannoodle/structure/_reference.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index fab85bc..5472c27 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -240,10 +240,13 @@ class ReferenceStructure:
             # Rotate, then permute to get candidate displacement
             candidate_displacement = permutation_matrix @ (displacement @ rotation.T)
 
-            # Orthogonality is only meaningful in Cartesian coordinates
+            # Angles are only meaningful in Cartesian coordinates
+            cart_candidate = (candidate_displacement @ self._lattice).flatten()
+            cart_orthogonal_displacements = [
+                (item @ self._lattice).flatten() for item in orthogonal_displacements
+            ]
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-                (candidate_displacement @ self._lattice).flatten(),
-                [(item @ self._lattice).flatten() for item in orthogonal_displacements],
+                cart_candidate, cart_orthogonal_displacements
             )
 
             # If new orthogonal displacement discovered
@@ -258,8 +261,7 @@ class ReferenceStructure:
             else:
                 # Candidate can be collinear to maximum of one orthogonal vector
                 collinear_result = _symmetry_utils.is_non_collinear_with_all(
-                    candidate_displacement,
-                    orthogonal_displacements,
+                    cart_candidate, cart_orthogonal_displacements
                 )
                 if collinear_result != -1:  # collinear
                     collinear_displacements = result[collinear_result]["displacements"]
-- 
2.43.0


From 55a1fef7404090f5eb1283f170c70a4c9f0ed29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 21/33] fix: symmetry does not add degrees of freedom that
 overlap existing ones

---
 ramannoodle/pmodel/_interpolation.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 52be571..4e54a19 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -314,6 +314,17 @@ class InterpolationModel(PolarizabilityModel):
         for dof_dictionary in displacements_and_transformations:
             child_displacement = dof_dictionary["displacements"][0]
 
+            # Directions that existing DOFs span already cannot be specified again
+            child_cart_basis_vector = self._ref_structure.get_cart_displacement(
+                child_displacement
+            )
+            child_cart_basis_vector /= np.linalg.norm(child_cart_basis_vector)
+            if (
+                is_orthogonal_to_all(child_cart_basis_vector, self._cart_basis_vectors)
+                != -1
+            ):
+                continue
+
             interpolation_x: list[float] = []
             interpolation_y: list[NDArray[np.float64]] = []
             if include_ref_polarizability:
@@ -336,11 +347,6 @@ class InterpolationModel(PolarizabilityModel):
 
                     interpolation_y.append(rotation @ delta_polarizability @ rotation.T)
 
-            child_cart_basis_vector = self._ref_structure.get_cart_displacement(
-                child_displacement
-            )
-            child_cart_basis_vector /= np.linalg.norm(child_cart_basis_vector)
-
             basis_vectors.append(child_cart_basis_vector)
             interpolation_xs.append(interpolation_x)
             interpolation_ys.append(interpolation_y)
-- 
2.43.0


From d3d0ec29f1a3f3088355c53ccf7515219aad0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 22/33] fix: queries return copies rather than views of
 internal arrays

---
 ramannoodle/dynamics/_trajectory.py | 4 ++--
 ramannoodle/pmodel/_art.py          | 2 +-
 ramannoodle/structure/_reference.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ramannoodle/dynamics/_trajectory.py b/ramannoodle/dynamics/_trajectory.py
index 9c88c9e..0b2ffde 100644
--- a/ramannoodle/dynamics/_trajectory.py
+++ b/ramannoodle/dynamics/_trajectory.py
@@ -100,9 +100,9 @@ class Trajectory(Dynamics, Sequence[NDArray[np.float64]]):
     def __getitem__(self, key: slice) -> NDArray[np.float64]: ...
 
     def __getitem__(self, key: int | slice) -> NDArray[np.float64]:
-        """Get positions (supports indexing and slicing)."""
+        """Get (a copy of) positions (supports indexing and slicing)."""
         try:
-            return self._positions_ts[key]
+            return self._positions_ts[key].copy()
         except IndexError as exc:
             if "out of bounds" in str(exc):
                 raise IndexError("trajectory index out of bounds") from exc
diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index afa03e5..739425f 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -373,7 +373,7 @@ class ARTModel(InterpolationModel):
         """Return specified art cartesian direction vectors for an atom."""
         indexes = self.get_dof_indexes(atom_index)
         cart_directions = [
-            self._cart_basis_vectors[index][atom_index] for index in indexes
+            self._cart_basis_vectors[index][atom_index].copy() for index in indexes
         ]
         return cart_directions
 
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 5472c27..bab6655 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -254,7 +254,7 @@ class ReferenceStructure:
                 result.append(
                     {
                         "displacements": [candidate_displacement],
-                        "transformations": [(rotation, translation)],
+                        "transformations": [(rotation.copy(), translation.copy())],
                     }
                 )
                 orthogonal_displacements.append(candidate_displacement)
@@ -280,7 +280,7 @@ class ReferenceStructure:
                             candidate_displacement
                         )
                         result[collinear_result]["transformations"].append(
-                            (rotation, translation)
+                            (rotation.copy(), translation.copy())
                         )
 
         return result
-- 
2.43.0


From ef845a57702489ed2efab7212086d3155341768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 23/33] fix: objects do not share arrays with the caller that
 constructed them

---
 ramannoodle/dynamics/_phonon.py      | 6 +++---
 ramannoodle/pmodel/_interpolation.py | 2 +-
 ramannoodle/pmodel/torch/_gnn.py     | 4 ++--
 ramannoodle/spectrum/_raman.py       | 6 +++---
 ramannoodle/structure/_reference.py  | 6 +++---
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ramannoodle/dynamics/_phonon.py b/ramannoodle/dynamics/_phonon.py
index 7aa990e..4a365e8 100644
--- a/ramannoodle/dynamics/_phonon.py
+++ b/ramannoodle/dynamics/_phonon.py
@@ -41,9 +41,9 @@ class Phonons(Dynamics):
             displacements,
             (wavenumbers.size, ref_positions.shape[0], 3),
         )
-        self._ref_positions = ref_positions
-        self._wavenumbers: NDArray[np.float64] = wavenumbers
-        self._displacements: NDArray[np.float64] = displacements
+        self._ref_positions = ref_positions.copy()
+        self._wavenumbers: NDArray[np.float64] = wavenumbers.copy()
+        self._displacements: NDArray[np.float64] = displacements.copy()
 
     @property
     def ref_positions(self) -> NDArray[np.float64]:
diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 4e54a19..e01ec85 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -108,7 +108,7 @@ class InterpolationModel(PolarizabilityModel):
         verify_ndarray_shape("ref_polarizability", ref_polarizability, (3, 3))
 
         self._ref_structure = ref_structure
-        self._ref_polarizability = ref_polarizability
+        self._ref_polarizability = ref_polarizability.copy()
         self._is_dummy_model = is_dummy_model
         self._cart_basis_vectors: list[NDArray[np.float64]] = []
         self._interpolations: list[BSpline] = []
diff --git a/ramannoodle/pmodel/torch/_gnn.py b/ramannoodle/pmodel/torch/_gnn.py
index 802d11b..27ae005 100644
--- a/ramannoodle/pmodel/torch/_gnn.py
+++ b/ramannoodle/pmodel/torch/_gnn.py
@@ -483,8 +483,8 @@ class PotGNN(
 
         self._ref_structure = ref_structure
         self._cutoff = cutoff
-        self._mean_polarizability = mean_polarizability
-        self._stddev_polarizability = stddev_polarizability
+        self._mean_polarizability = mean_polarizability.copy()
+        self._stddev_polarizability = stddev_polarizability.copy()
 
         # Set up graph.
         lattice = torch.from_numpy(ref_structure.lattice).unsqueeze(0)
diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 81d29fa..1ce986a 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -93,8 +93,8 @@ class PhononRamanSpectrum(RamanSpectrum):
         verify_ndarray_shape(
             "raman_tensors", raman_tensors, (len(phonon_wavenumbers), 3, 3)
         )
-        self._phonon_wavenumbers = phonon_wavenumbers
-        self._raman_tensors = raman_tensors
+        self._phonon_wavenumbers = phonon_wavenumbers.copy()
+        self._raman_tensors = raman_tensors.copy()
 
     @property
     def phonon_wavenumbers(self) -> NDArray[np.float64]:
@@ -212,7 +212,7 @@ class MDRamanSpectrum(RamanSpectrum):
     def __init__(self, polarizability_ts: NDArray[np.float64], timestep: float):
         verify_ndarray_shape("polarizability_ts", polarizability_ts, (None, 3, 3))
 
-        self._polarizability_ts = polarizability_ts
+        self._polarizability_ts = polarizability_ts.copy()
         self._timestep = timestep
 
     @property
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index bab6655..42028c5 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -129,9 +129,9 @@ class ReferenceStructure:
         verify_ndarray_shape("lattice", lattice, (3, 3))
         verify_ndarray_shape("positions", positions, (len(atomic_numbers), 3))
 
-        self._atomic_numbers = atomic_numbers
-        self._lattice = lattice
-        self._positions = positions
+        self._atomic_numbers = copy.copy(atomic_numbers)
+        self._lattice = lattice.copy()
+        self._positions = positions.copy()
 
         # spglib crashes on non-finite (and on huge) input
         if not (np.isfinite(lattice).all() and np.isfinite(positions).all()):
-- 
2.43.0


From 219079dc089ff12ce373822ed2ed554febdece9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 24/33] fix: training discards gradients left over from earlier
 calculations

---
 ramannoodle/pmodel/torch/_train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramannoodle/pmodel/torch/_train.py b/ramannoodle/pmodel/torch/_train.py
index 5af8808..c82c05c 100644
--- a/ramannoodle/pmodel/torch/_train.py
+++ b/ramannoodle/pmodel/torch/_train.py
@@ -61,6 +61,7 @@ def train_single_epoch(
     )
 
     model.train()
+    optimizer.zero_grad()  # Gradients may remain from earlier calculations.
     train_losses = []
     for lattice, atomic_numbers, position, polarizability in train_loader:
         out = model.forward(
-- 
2.43.0


From 404379f86a7c6b65f060dcf1d398c9e9bbb84b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 25/33] fix: displacements, directions, and transformations of
 the wrong shape are rejected

---
 ramannoodle/structure/_displace.py  |  3 +--
 ramannoodle/structure/_reference.py | 10 +++++++++-
 ramannoodle/structure/utils.py      | 12 ++++--------
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/ramannoodle/structure/_displace.py b/ramannoodle/structure/_displace.py
index 8329179..90d4180 100644
--- a/ramannoodle/structure/_displace.py
+++ b/ramannoodle/structure/_displace.py
@@ -148,11 +148,10 @@ def get_ast_displaced_positions(
         cart_direction = cart_direction / float(np.linalg.norm(cart_direction))
     except TypeError as err:
         raise get_type_error("cart_direction", cart_direction, "ndarray") from err
+    verify_ndarray_shape("cart_direction", cart_direction, (3,))
     cart_displacement = ref_structure.positions * 0
     try:
         cart_displacement[atom_index] = cart_direction
-    except ValueError as err:
-        raise get_shape_error("cart_direction", cart_direction, "(3,)") from err
     except IndexError as err:
         raise IndexError(f"invalid atom_index: {atom_index}") from err
 
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 42028c5..17d2357 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -8,6 +8,7 @@ import spglib
 
 from ramannoodle.exceptions import (
     SymmetryException,
+    get_shape_error,
     get_type_error,
     verify_ndarray_shape,
     verify_list_len,
@@ -227,6 +228,7 @@ class ReferenceStructure:
             in fractional coordinates.
 
         """
+        verify_ndarray_shape("displacement", displacement, (self.num_atoms, 3))
         displacement = apply_pbc_displacement(displacement)
         # Scale the displacement for numerical reasons.
         displacement = displacement / (np.linalg.norm(displacement) * 10)
@@ -301,6 +303,10 @@ class ReferenceStructure:
             (Å) Array with shape (...,N,3).
         """
         displacement = apply_pbc_displacement(displacement)
+        if displacement.shape[-2:] != (self.num_atoms, 3):
+            raise get_shape_error(
+                "displacement", displacement, f"(...,{self.num_atoms},3)"
+            )
 
         return displacement @ self._lattice
 
@@ -335,7 +341,9 @@ class ReferenceStructure:
         :
             (fractional) Array with shape (N,3).
         """
-        verify_ndarray_shape("cart_displacement", cart_displacement, (None, 3))
+        verify_ndarray_shape(
+            "cart_displacement", cart_displacement, (self.num_atoms, 3)
+        )
         displacement = (cart_displacement) @ np.linalg.inv(self.lattice)
         return apply_pbc_displacement(displacement)
 
diff --git a/ramannoodle/structure/utils.py b/ramannoodle/structure/utils.py
index eb6c0cc..01db0f2 100644
--- a/ramannoodle/structure/utils.py
+++ b/ramannoodle/structure/utils.py
@@ -5,8 +5,8 @@ from numpy.typing import NDArray
 
 from ramannoodle.exceptions import (
     get_type_error,
+    verify_ndarray_shape,
     verify_positions,
-    get_shape_error,
 )
 
 
@@ -96,14 +96,10 @@ def transform_positions(
         (fractional) Array with shape (N,3).
     """
     verify_positions("positions", positions)
+    verify_ndarray_shape("rotation", rotation, (3, 3))
+    verify_ndarray_shape("translation", translation, (3,))
     positions = apply_pbc(positions)
-    try:
-        rotated = positions @ rotation.T
-    except TypeError as exc:
-        raise get_type_error("rotation", rotation, "ndarray") from exc
-    except ValueError as exc:
-        raise get_shape_error("rotation", rotation, "(3,3)") from exc
-    rotated = apply_pbc(rotated)
+    rotated = apply_pbc(positions @ rotation.T)
     return displace_positions(rotated, translation)
 
 
-- 
2.43.0


From 3ed237e8964dd88743f835a5d18e899bb9d68a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 26/33] fix: time steps of ten or more are read from OUTCARs

---
 ramannoodle/io/vasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 53a3d58..7502126 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -520,7 +520,7 @@ def _read_timestep(file: TextIO) -> float:
     except NoMatchingLineFoundException as exc:
         raise InvalidFileException("timestep not found") from exc
     try:
-        timestep = float(line.split()[2])
+        timestep = float(line.split("=")[1].split()[0])
         if timestep <= 0:
             raise ValueError("timestep is not positive")
         return timestep
-- 
2.43.0


From 2382ec0ed4b2d3d092dcc60bf8944d05d62c9c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 27/33] fix: datasets from pymatgen structures without torch
 raise UserError

---
 ramannoodle/io/pymatgen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/pymatgen.py b/ramannoodle/io/pymatgen.py
index c10fcf6..9de04d6 100644
--- a/ramannoodle/io/pymatgen.py
+++ b/ramannoodle/io/pymatgen.py
@@ -7,6 +7,7 @@ from numpy.typing import NDArray
 
 from ramannoodle.exceptions import (
     get_pymatgen_missing_error,
+    get_torch_missing_error,
     UserError,
     verify_list_len,
     verify_ndarray_shape,
@@ -16,10 +17,11 @@ from ramannoodle.exceptions import (
 from ramannoodle.dynamics._trajectory import Trajectory
 from ramannoodle.structure._reference import ReferenceStructure
 
+TORCH_PRESENT = True
 try:
     from ramannoodle.dataset.torch._dataset import PolarizabilityDataset
 except UserError:
-    pass
+    TORCH_PRESENT = False
 
 try:
     import pymatgen.core
@@ -129,6 +131,8 @@ def construct_polarizability_dataset(
         Array with shape (M,3,3).
 
     """
+    if not TORCH_PRESENT:
+        raise get_torch_missing_error()
     verify_list_len("pymatgen_structures", pymatgen_structures, None)
     verify_ndarray_shape(
         "polarizabilities", polarizabilities, (len(pymatgen_structures), 3, 3)
-- 
2.43.0


From 1b13c268114ee27ae00b7b073b9b763d29caf3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 28/33] fix: networks used by several threads keep triplets and
 batch size together

---
 ramannoodle/pmodel/torch/_utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ramannoodle/pmodel/torch/_utils.py b/ramannoodle/pmodel/torch/_utils.py
index ef3cc49..a281998 100644
--- a/ramannoodle/pmodel/torch/_utils.py
+++ b/ramannoodle/pmodel/torch/_utils.py
@@ -164,13 +164,13 @@ class BatchTriplets:
         assert len(self._ref_triplets) == 7  # type hint
         self._num_triplets = self._ref_triplets[2].size(0)
 
-        self._cached_batch_size = 1
-        self._cached_triplets = self._ref_triplets
+        # Batch size and its triplets are replaced together, for the sake of threads.
+        self._cache = (1, self._ref_triplets)
 
     @property
     def cached_batch_size(self) -> int:
         """Get batch size of current cache."""
-        return self._cached_batch_size
+        return self._cache[0]
 
     def get_triplets(
         self, batch_size: int
@@ -192,7 +192,8 @@ class BatchTriplets:
                 with size [T,].
 
         """
-        if batch_size != self._cached_batch_size:
+        cached_batch_size, triplets = self._cache
+        if batch_size != cached_batch_size:
             i, j, index_i, index_j, index_k, index_ji, index_kj = tuple(
                 t.repeat(batch_size) for t in self._ref_triplets
             )
@@ -211,7 +212,7 @@ class BatchTriplets:
             for index in [index_ji, index_kj]:
                 index += batch_indexes * self._num_edges
 
-            self._cached_triplets = (
+            triplets = (
                 i,
                 j,
                 index_i,
@@ -220,9 +221,9 @@ class BatchTriplets:
                 index_ji,
                 index_kj,
             )
-            self._cached_batch_size = batch_size
+            self._cache = (batch_size, triplets)
 
-        return self._cached_triplets
+        return triplets
 
 
 def batch_positions(
-- 
2.43.0


From 60d201ad80288412f6b84c026e92f590077940fa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 29/33] fix: datasets accept integers and any memory layout

---
 ramannoodle/dataset/torch/_dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index 4e42ebd..60db4f8 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -100,6 +100,10 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         verify_ndarray_shape("polarizabilities", polarizabilities, (num_samples, 3, 3))
 
         default_type = torch.get_default_dtype()
+        # Integers, negative strides, and foreign byte orders are fine for numpy.
+        lattice = np.array(lattice, dtype=np.float64)
+        positions = np.array(positions, dtype=np.float64)
+        polarizabilities = np.array(polarizabilities, dtype=np.float64)
         self._lattices = torch.tensor(lattice).type(default_type).unsqueeze(0)
         self._lattices = self._lattices.expand(num_samples, 3, 3)
         self._atomic_numbers = torch.tensor(atomic_numbers).type(torch.int).unsqueeze(0)
@@ -208,6 +212,8 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         """
         verify_ndarray_shape("mean", mean, (3, 3))
         verify_ndarray_shape("mean", stddev, (3, 3))
+        mean = np.array(mean, dtype=np.float64)
+        stddev = np.array(stddev, dtype=np.float64)
 
         scaled = self._polarizabilities.detach().clone()
         scaled = scaled - torch.tensor(mean)
-- 
2.43.0


From e848a9d6b0136c2618b4e74d6eea12453c33ff1b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 30/33] fix: PotGNN accepts any memory layout

---
 ramannoodle/pmodel/torch/_gnn.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ramannoodle/pmodel/torch/_gnn.py b/ramannoodle/pmodel/torch/_gnn.py
index 27ae005..b67b2d8 100644
--- a/ramannoodle/pmodel/torch/_gnn.py
+++ b/ramannoodle/pmodel/torch/_gnn.py
@@ -487,8 +487,13 @@ class PotGNN(
         self._stddev_polarizability = stddev_polarizability.copy()
 
         # Set up graph.
-        lattice = torch.from_numpy(ref_structure.lattice).unsqueeze(0)
-        positions = torch.from_numpy(ref_structure.positions).unsqueeze(0)
+        # Negative strides and foreign byte orders are fine for numpy, not for torch.
+        lattice = torch.tensor(
+            np.array(ref_structure.lattice, dtype=np.float64)
+        ).unsqueeze(0)
+        positions = torch.tensor(
+            np.array(ref_structure.positions, dtype=np.float64)
+        ).unsqueeze(0)
         self._ref_edge_indexes, _, _ = rn_torch_utils._radius_graph_pbc(
             lattice.type(torch.get_default_dtype()).to(torch.get_default_device()),
             positions.type(torch.get_default_dtype()).to(torch.get_default_device()),
@@ -695,7 +700,9 @@ class PotGNN(
         for positions_subbatch in positions_subbatchs:
             subbatch_size = positions_subbatch.shape[0]
 
-            lattice = torch.tensor(self._ref_structure.lattice)
+            lattice = torch.tensor(
+                np.array(self._ref_structure.lattice, dtype=np.float64)
+            )
             lattice = lattice.unsqueeze(0).expand((subbatch_size, -1, -1))
             atomic_numbers = torch.tensor(
                 self._ref_structure.atomic_numbers, dtype=torch.int
@@ -706,7 +713,9 @@ class PotGNN(
             polarizability = self.forward(
                 lattice.type(default_type),
                 atomic_numbers,
-                torch.tensor(positions_subbatch).type(default_type),
+                torch.tensor(np.array(positions_subbatch, dtype=np.float64)).type(
+                    default_type
+                ),
             )
             polarizability = polarizability_vectors_to_tensors(polarizability)
             end_index = start_index + subbatch_size
-- 
2.43.0


From 4f5b5525f3bfc2454e4d843a65a01b60c68358cd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 31/33] fix: get_ast_displaced_positions with integer reference
 positions

---
 ramannoodle/structure/_displace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/structure/_displace.py b/ramannoodle/structure/_displace.py
index 90d4180..033eca8 100644
--- a/ramannoodle/structure/_displace.py
+++ b/ramannoodle/structure/_displace.py
@@ -149,7 +149,7 @@ def get_ast_displaced_positions(
     except TypeError as err:
         raise get_type_error("cart_direction", cart_direction, "ndarray") from err
     verify_ndarray_shape("cart_direction", cart_direction, (3,))
-    cart_displacement = ref_structure.positions * 0
+    cart_displacement = np.zeros(ref_structure.positions.shape)
     try:
         cart_displacement[atom_index] = cart_direction
     except IndexError as err:
-- 
2.43.0


From e4e62d4c57996a7ff39ab86af3c2429e8d9dec92 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 32/33] fix: ARTModel.add_art with integer reference positions

---
 ramannoodle/pmodel/_art.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 739425f..a7616e4 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -184,7 +184,7 @@ class ARTModel(InterpolationModel):
             "polarizabilities", polarizabilities, (amplitudes.size, 3, 3)
         )
 
-        displacement = self._ref_structure.positions * 0
+        displacement = np.zeros(self._ref_structure.positions.shape)
         displacement[atom_index] = direction / np.linalg.norm(direction * 10.0)
 
         # Checks amplitudes and displacements
-- 
2.43.0


From 7ac77c1d2576ae1e6a879204b668cab122dfd298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:35 +0000
Subject: [PATCH 33/33] fix: damage between XDATCAR configurations shortened
 the trajectory silently

---
 ramannoodle/io/vasp/poscar.py  | 2 +-
 ramannoodle/io/vasp/xdatcar.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 05a237c..f681032 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -106,7 +106,7 @@ def _read_positions(
     """
     cart_mode = False
     label = file.readline()
-    if len(label.strip()) == 0 or label[0].strip() == "":
+    if len(label.strip()) == 0:
         raise InvalidFileException(
             f"missing first character in coordinate format: '{label}'"
         )
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index 21b19a3..4bfb58d 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -52,7 +52,11 @@ def read_positions_ts(
                 )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
-                if "missing first character in coordinate format:" in str(exc):
+                # Only blank lines may follow the last configuration.
+                if (
+                    "missing first character in coordinate format:" in str(exc)
+                    and file.read().strip() == ""
+                ):
                     break
                 raise exc
         if len(positions_ts) == 0:
-- 
2.43.0

