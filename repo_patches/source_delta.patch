From 57759b90a091ed515ef77639471b5af3fbda2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:20 +0000
Subject: [PATCH 01/55] fix: removing double counting no longer crashes on a
 bond stored only in its mirrored form

---
 src/magnopy/spinham/hamiltonian.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 29df8ca..007afd5 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -352,9 +352,7 @@ class SpinHamiltonian(Crystal):
             else:
                 # If mirrored bond is not in the model, then remember it for addition
                 if (atom2, atom1, (-i, -j, -k)) not in self:
-                    bonds_to_add.append(
-                        atom2, atom1, (-i, -j, -k), parameter=parameter.T
-                    )
+                    bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
                 # Remember the bond for removal
                 bonds_to_remove.append((atom1, atom2, (i, j, k)))
 
-- 
2.43.0


From 7abaa24040c129043ac4653f1dc32877b070a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:20 +0000
Subject: [PATCH 02/55] fix: rewriting a bond with double counting rewrites its
 mirrored bond as well

---
 src/magnopy/spinham/hamiltonian.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 007afd5..96d367b 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -712,11 +712,9 @@ class SpinHamiltonian(Crystal):
         # Check for double counting
         try:
             i, j, k = ijk
-            if (
-                self.double_counting
-                and (atom2, atom1, (-i, -j, -k)) not in self._exchange
-            ):
-                self._exchange[(atom2, atom1, (-i, -j, -k))] = parameter.T
+            mirrored_bond = (atom2, atom1, (-i, -j, -k))
+            if self.double_counting and mirrored_bond != (atom1, atom2, (i, j, k)):
+                self._exchange[mirrored_bond] = parameter.T
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
         # be added or not
-- 
2.43.0


From b90b1ce2c2ef72f6b9c6d80ce0f761ab39aa1476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:20 +0000
Subject: [PATCH 03/55] fix: notation change scales every parameter once and
 leaves the caller's parameter objects alone

---
 src/magnopy/spinham/hamiltonian.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 96d367b..5d8e5d7 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -379,8 +379,8 @@ class SpinHamiltonian(Crystal):
                 factor = 0.5
             # Scale exchange parameters
             if factor != 1:
-                for atom1, atom2, ijk in self._exchange:
-                    self[atom1, atom2, ijk].matrix *= factor
+                for bond in self._exchange:
+                    self._exchange[bond] = self._exchange[bond] * factor
 
         # Add missed mirror bonds if necessary
         if new_value:
@@ -427,18 +427,22 @@ class SpinHamiltonian(Crystal):
             if self._spin_normalized and not new_value:
                 # For exchange
                 for atom1, atom2, ijk in self._exchange:
-                    self[atom1, atom2, ijk].matrix /= atom1.spin * atom2.spin
+                    self._exchange[atom1, atom2, ijk] = self._exchange[
+                        atom1, atom2, ijk
+                    ] / (atom1.spin * atom2.spin)
                 # For on-site
                 for atom in self._on_site:
-                    self[atom].matrix /= atom.spin**2
+                    self._on_site[atom] = self._on_site[atom] / atom.spin**2
             # Absorb spin in the parameters
             elif not self._spin_normalized and new_value:
                 # For exchange
                 for atom1, atom2, ijk in self._exchange:
-                    self[atom1, atom2, ijk].matrix *= atom1.spin * atom2.spin
+                    self._exchange[atom1, atom2, ijk] = self._exchange[
+                        atom1, atom2, ijk
+                    ] * (atom1.spin * atom2.spin)
                 # For on-site
                 for atom in self._on_site:
-                    self[atom].matrix *= atom.spin**2
+                    self._on_site[atom] = self._on_site[atom] * atom.spin**2
 
         self._spin_normalized = bool(new_value)
 
@@ -478,8 +482,10 @@ class SpinHamiltonian(Crystal):
         # If factor is changing one need to scale parameters.
         if self._exchange_factor is not None and self._exchange_factor != new_factor:
             # Only exchange parameters have to be scaled
-            for atom1, atom2, ijk in self._exchange:
-                self[atom1, atom2, ijk].matrix *= self._exchange_factor / new_factor
+            for bond in self._exchange:
+                self._exchange[bond] = self._exchange[bond] * (
+                    self._exchange_factor / new_factor
+                )
 
         self._exchange_factor = new_factor
 
@@ -520,7 +526,9 @@ class SpinHamiltonian(Crystal):
         if self._on_site_factor is not None and self._on_site_factor != new_factor:
             # Only on-site parameters have to be scaled
             for atom in self._on_site:
-                self[atom].matrix *= self._on_site_factor / new_factor
+                self._on_site[atom] = self._on_site[atom] * (
+                    self._on_site_factor / new_factor
+                )
 
         self._on_site_factor = new_factor
 
-- 
2.43.0


From a2f847f48a31c5e213abbc965ebc5cbc6a4ab8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:20 +0000
Subject: [PATCH 04/55] fix: on-site parameter can be removed by the name of
 the atom

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 5d8e5d7..9578949 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -820,7 +820,7 @@ class SpinHamiltonian(Crystal):
 
         # If atom is a string, get the atom object
         if isinstance(atom, str):
-            atom1 = self.get_atom(atom)
+            atom = self.get_atom(atom)
 
         try:
             del self._on_site[atom]
-- 
2.43.0


From bfd38c96f761548bfc3fb2ca7d58efdb88f782d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:20 +0000
Subject: [PATCH 05/55] fix: an atom can be removed from the Hamiltonian with
 double counting

---
 src/magnopy/spinham/hamiltonian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 9578949..a6d2600 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -956,9 +956,12 @@ class SpinHamiltonian(Crystal):
         # No need to check for double counting explicitly
         # Both bonds -- ones that start and ones that end in atom -- are removed
         for parameter in parameters_for_removal:
-            # Parameter has different type (tuple or atom) but the same syntax
-            # works for both, see __delitem__ for details
-            del self[parameter]
+            if isinstance(parameter, tuple):
+                # With double counting the bond might be already removed together
+                # with its mirrored bond
+                self.remove_exchange(*parameter, raise_if_no_bond=False)
+            else:
+                self.remove_on_site(parameter)
 
         # Remove an atom from the crystal
         super().remove_atom(atom)
-- 
2.43.0


From e79e4baf488c9ed13acc75ec08a43424d843f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:20 +0000
Subject: [PATCH 06/55] fix: order of magnetic atoms does not depend on the
 hash seed

---
 src/magnopy/spinham/hamiltonian.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index a6d2600..467ecf4 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -642,16 +642,18 @@ class SpinHamiltonian(Crystal):
         magnetic_atoms : list of :ref:`wulfric:api_Atom`
             List of magnetic atoms.
         """
-        result = set()
+        # Keys of the dictionary are ordered, so the order of the atoms with the same
+        # index does not depend on their hashes
+        result = {}
         # Look through the exchange terms
         for atom1, atom2, _ in self._exchange:
-            result.add(atom1)
-            result.add(atom2)
+            result[atom1] = None
+            result[atom2] = None
         # Look through the on-site terms
         for atom in self._on_site:
-            result.add(atom)
+            result[atom] = None
 
-        return sorted(list(result), key=lambda x: x.index)
+        return sorted(result, key=lambda x: x.index)
 
     @property
     def I(self):
-- 
2.43.0


From 75f59c779736c9ffab4435f774289ae310b54b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:20 +0000
Subject: [PATCH 07/55] fix: crystal of the Hamiltonian is independent of the
 Hamiltonian

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 467ecf4..86d6c06 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -986,7 +986,7 @@ class SpinHamiltonian(Crystal):
         --------
         Crystal
         """
-        return Crystal(self.lattice, self.atoms)
+        return Crystal(self.lattice, deepcopy(self.atoms))
 
 
 class _SpinHamiltonianExchangeIterator:
-- 
2.43.0


From 5f9c21f5a14ef77dff982be186a444836585d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:20 +0000
Subject: [PATCH 08/55] fix: on-site terms written in the exchange form keep
 their energy for any pair of factors

---
 src/magnopy/spinham/hamiltonian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 86d6c06..e61b62a 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -122,7 +122,7 @@ class SpinHamiltonian(Crystal):
         * On-site parameters: ``atom, atom, (0,0,0), parameter``
 
         On-site parameters are scaled with the factor
-        :py:attr:`.exchange_factor`/:py:attr:`.on_site_factor`
+        :py:attr:`.on_site_factor`/:py:attr:`.exchange_factor`
 
         It is an iterator.
         """
@@ -1059,7 +1059,7 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.exchange_factor / spinham.on_site_factor
+        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From a6e525ee4a0396b608c28fac17cf1f1016f55f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 09/55] fix: enforcing double counting does not touch mirrored
 bonds that are already there

---
 src/magnopy/spinham/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index e61b62a..d4c6169 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -314,7 +314,7 @@ class SpinHamiltonian(Crystal):
         bonds_to_add = []
         for atom1, atom2, (i, j, k), parameter in self.exchange:
             # Remember the mirrored bond if it is not in the Hamiltonian yet
-            if (atom2, atom1, (-i, -j, -k)) not in self.exchange:
+            if (atom2, atom1, (-i, -j, -k)) not in self:
                 bonds_to_add.append((atom2, atom1, (-i, -j, -k), parameter.T))
 
         # Add all missing bonds
-- 
2.43.0


From cd96db979808cec2e55e927e84d08761c727c919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 10/55] fix: rejected exchange or on-site parameter leaves the
 Hamiltonian unchanged

---
 src/magnopy/spinham/hamiltonian.py | 31 ++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index d4c6169..6cb963b 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -701,29 +701,32 @@ class SpinHamiltonian(Crystal):
             Ignored if ``parameter`` is given.
         """
 
-        # Get the atom by the name
+        # Everything that can fail is done before the Hamiltonian is changed
+        # Get the atoms by the name
         if isinstance(atom1, str):
             atom1 = self.get_atom(atom1)
-        elif atom1 not in self.atoms:
-            self.add_atom(atom1)
-
-        # Get the atom by the name
         if isinstance(atom2, str):
             atom2 = self.get_atom(atom2)
-        elif atom2 not in self.atoms:
-            self.add_atom(atom2)
 
         # Construct parameter if it is not given
         if parameter is None:
             parameter = MatrixParameter(**kwargs)
 
+        i, j, k = ijk
+        ijk, mirrored_ijk = (i, j, k), (-i, -j, -k)
+
+        # Add atoms to the Hamiltonian if they are not in it
+        if atom1 not in self.atoms:
+            self.add_atom(atom1)
+        if atom2 not in self.atoms:
+            self.add_atom(atom2)
+
         self._exchange[(atom1, atom2, ijk)] = parameter
 
         # Check for double counting
         try:
-            i, j, k = ijk
-            mirrored_bond = (atom2, atom1, (-i, -j, -k))
-            if self.double_counting and mirrored_bond != (atom1, atom2, (i, j, k)):
+            mirrored_bond = (atom2, atom1, mirrored_ijk)
+            if self.double_counting and mirrored_bond != (atom1, atom2, ijk):
                 self._exchange[mirrored_bond] = parameter.T
         # If it fails, then we do not need to add a mirrored bond, since the notation
         # is not defined yet and it is not clear wether the mirrored bond has to
@@ -794,6 +797,10 @@ class SpinHamiltonian(Crystal):
             Ignored if ``parameter`` is given.
         """
 
+        # Construct parameter if it is not given
+        if parameter is None:
+            parameter = MatrixParameter(**kwargs)
+
         # Get the atom by the name
         if isinstance(atom, str):
             atom = self.get_atom(atom)
@@ -802,10 +809,6 @@ class SpinHamiltonian(Crystal):
         elif atom not in self.atoms:
             self.add_atom(atom)
 
-        # Construct parameter if it is not given
-        if parameter is None:
-            parameter = MatrixParameter(**kwargs)
-
         self._on_site[atom] = parameter
 
     def remove_on_site(self, atom: Atom, raise_if_no_bond=True):
-- 
2.43.0


From a0d96ee5a723bf8666d761b09d2531cb3e77612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 11/55] fix: notation with zero factor is rejected before any
 parameter is changed

---
 src/magnopy/spinham/hamiltonian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 6cb963b..e7ae963 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -266,6 +266,10 @@ class SpinHamiltonian(Crystal):
                 + "or an iterable with three or four elements, "
                 + f"got: {new_notation}"
             )
+        if 0 in new_notation[2:]:
+            raise ValueError(
+                f"Factors of the notation have to be non-zero, got: {new_notation}"
+            )
         (
             self.double_counting,
             self.spin_normalized,
-- 
2.43.0


From 863e9fd1d894f7474bdf8ab14887b942e6c06aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 12/55] fix: factors are required for the exchange-like terms
 only if there is something to scale

---
 src/magnopy/spinham/hamiltonian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index e7ae963..e706649 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -1066,7 +1066,10 @@ class _SpinHamiltonianExchangeLikeIterator:
         self.iterator2 = spinham._exchange.__iter__()
         self.index1 = 0
         self.index2 = 0
-        self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
+        # Without on-site parameters there is nothing to scale
+        self.scale_factor = 1
+        if self.length1 > 0:
+            self.scale_factor = spinham.on_site_factor / spinham.exchange_factor
 
     def __next__(self) -> Tuple[Atom, Atom, tuple, MatrixParameter]:
         # First return all on-site terms
-- 
2.43.0


From bf7d68afda89b83164306e92197db65794097b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 13/55] fix: energy neither changes nor follows the Hamiltonian
 it is created from and respects its notation

---
 src/magnopy/spinham/energy.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 8141c8c..745f6a5 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -547,6 +547,16 @@ class Energy:
     """
 
     def __init__(self, spinham: SpinHamiltonian):
+        # Work with the copy, the Hamiltonian of the user is never changed
+        spinham = spinham.copy()
+
+        # Force the notation of the energy formulas:
+        # with double counting and with the spins out of the parameters.
+        if not spinham.double_counting:
+            spinham.double_counting = True
+        if spinham.spin_normalized:
+            spinham.spin_normalized = False
+
         # Parameters of the Hamiltonian, private
         self._factor = spinham.exchange_factor
         self._atom_indices = dict(
@@ -557,10 +567,6 @@ class Energy:
         self._g_factors = [atom.g_factor for atom in spinham.magnetic_atoms]
         self._spins = [atom.spin for atom in spinham.magnetic_atoms]
 
-        # Force double counting notation
-        previous_dc = spinham.double_counting
-        spinham.double_counting = True
-
         # Get all bonds of the Hamiltonian.
         self._bonds = []
         for atom1, atom2, R, J in spinham.exchange_like:
@@ -569,9 +575,6 @@ class Energy:
             d = R @ spinham.cell
             self._bonds.append([i, j, d, J])
 
-        # Return original noatation of SpinHamiltonian
-        spinham.double_counting = previous_dc
-
         # Minimisation settings, exposed to public as properties
         self._m = 10
 
-- 
2.43.0


From 7f97c17efcdaa8daa2bca97be27f4f8aef96b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 14/55] fix: settings of the energy can be set and are read
 back as they were set

---
 src/magnopy/spinham/energy.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 745f6a5..a271918 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -676,7 +676,7 @@ class Energy:
         c2 : float
         """
 
-        return self._wolfe_c1
+        return self._wolfe_c2
 
     @wolfe_c2.setter
     def wolfe_c2(self, new_value):
@@ -741,7 +741,7 @@ class Energy:
 
     @g_factors.setter
     def g_factors(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New g factors must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
@@ -749,15 +749,16 @@ class Energy:
                 f"Expecten {len(self._spins)} g factors, got {len(new_value)}"
             )
 
+        new_g_factors = []
         for i, g_factor in enumerate(new_value):
             try:
-                new_value[i] = int(g_factor)
+                new_g_factors.append(float(g_factor))
             except:
                 raise ValueError(
                     f"One of the new g_factors (index {i}) is not "
-                    f"an integer:{g_factor}."
+                    f"a number:{g_factor}."
                 )
-        self._g_factors = new_value
+        self._g_factors = new_g_factors
 
     @property
     def spins(self):
@@ -773,20 +774,21 @@ class Energy:
 
     @spins.setter
     def spins(self, new_value):
-        if not isinstance(Iterable):
+        if not isinstance(new_value, Iterable):
             raise ValueError(f"New spins must be an Iterable: {new_value}")
 
         if not len(new_value) == len(self._spins):
             raise ValueError(f"Expected {len(self._spins)} spins, got {len(new_value)}")
 
+        new_spins = []
         for i, spin in enumerate(new_value):
             try:
-                new_value[i] = int(spin)
+                new_spins.append(float(spin))
             except:
                 raise ValueError(
-                    f"One of the new spins (index {i}) is not " f"an integer:{spin}."
+                    f"One of the new spins (index {i}) is not " f"a number:{spin}."
                 )
-        self._spins = new_value
+        self._spins = new_spins
 
     ################################################################################
     #                              Gradients of energy                             #
-- 
2.43.0


From 7dd7134682eb8ad80bd61857b45726f66612b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 15/55] fix: history of the minimization is written in whole
 lines, header is not glued to the previous run

---
 src/magnopy/spinham/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index a271918..f3dbaa2 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -426,7 +426,7 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
             print(header, flush=True)
         else:
             with open(filename, "a") as file:
-                file.write(header)
+                file.write(header + "\n")
     else:
         for i in range(len(history)):
             history[i] = (
@@ -439,7 +439,7 @@ def _default_history_processor_ferro(history, filename=None, nspins=None):
             print("\n".join(history), flush=True)
         else:
             with open(filename, "a") as file:
-                file.write("\n" + "\n".join(history))
+                file.write("\n".join(history) + "\n")
 
 
 def _default_history_processor_antiferro(history, filename=None, nspins=None):
@@ -460,7 +460,7 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
             print(header, flush=True)
         else:
             with open(filename, "a") as file:
-                file.write(header)
+                file.write(header + "\n")
     else:
         for i in range(len(history)):
             history[i] = (
@@ -479,7 +479,7 @@ def _default_history_processor_antiferro(history, filename=None, nspins=None):
             print("\n".join(history), flush=True)
         else:
             with open(filename, "a") as file:
-                file.write("\n" + "\n".join(history))
+                file.write("\n".join(history) + "\n")
 
 
 def _default_history_processor_spiral(history, filename=None, nspins=None):
@@ -500,7 +500,7 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
             print(header, flush=True)
         else:
             with open(filename, "a") as file:
-                file.write(header)
+                file.write(header + "\n")
     else:
         for i in range(len(history)):
             history[i] = (
@@ -519,7 +519,7 @@ def _default_history_processor_spiral(history, filename=None, nspins=None):
             print("\n".join(history), flush=True)
         else:
             with open(filename, "a") as file:
-                file.write("\n" + "\n".join(history))
+                file.write("\n".join(history) + "\n")
 
 
 ################################################################################
-- 
2.43.0


From 91f2a0cb89126a6d98321c33cef30b0f150e0b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 16/55] fix: history of the minimization is complete when the
 maximum of iterations is reached

---
 src/magnopy/spinham/energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index f3dbaa2..6f857e6 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1570,7 +1570,7 @@ class Energy:
                     f"Torques: {torque_targets}, "
                     f"Energy difference: {energy_diff:.5e}."
                 )
-                return _unpack(x)
+                break
 
             # Compute gradient and torques
             _grad(*_unpack(x), gradient_vector=gradient_vector, torques=torques)
@@ -1631,7 +1631,7 @@ class Energy:
                     history = []
 
         # Output remaining part of history
-        if save_history:
+        if save_history and len(history) > 0:
             history_processor(history, filename=history_filename)
 
         # Return minimized configuration
-- 
2.43.0


From 7d8998dc4ba39e48a570472fbc756e9cb6cce290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 17/55] fix: interrupted or concurrent calculation of the C
 matrix does not spoil the magnon energies

---
 src/magnopy/magnons/dispersion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 0bb75ce..87fe7da 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -248,15 +248,17 @@ class MagnonDispersion:
         """
 
         if self._C is None:
-            self._C = np.zeros((self.N, self.N), dtype=complex)
+            # The result is kept only when it is complete
+            C = np.zeros((self.N, self.N), dtype=complex)
 
             # Compute C matrix, note: sum over l is hidden here
             J = self.J(np.zeros(3))
             for i in range(len(J)):
                 for j in range(len(J[i])):
-                    self._C[i][i] += (
+                    C[i][i] += (
                         np.linalg.norm(self.S[j]) * self.v[i] @ J[i][j] @ self.v[j]
                     )
+            self._C = C
         return self._C
 
     def h(self, k):
-- 
2.43.0


From bd369c151a97af49fdf319f8456a1d63b85d454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 18/55] fix: export to Vampire never changes the Hamiltonian,
 even if it fails

---
 src/magnopy/io/txt/vampire.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 6d457ad..9439411 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -203,7 +203,10 @@ def dump_ucf(
     """
     if materials is None:
         materials = [i for i in range(len(spinham.magnetic_atoms))]
-    original_notation = spinham.notation
+    # Notation has to be defined by the user, otherwise an error is raised
+    spinham.notation
+    # Work with the copy, the Hamiltonian of the user is never changed
+    spinham = spinham.copy()
     spinham.notation = "vampire"
     if nologo:
         text = []
@@ -245,8 +248,6 @@ def dump_ucf(
         )
         IID += 1
 
-    spinham.notation = original_notation
-
     text = "\n".join(text)
 
     if filename is None:
-- 
2.43.0


From 08542df4c40445bab7722fec6e37b38394d28c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 19/55] fix: .mat file for Vampire can be written with the
 supported version of wulfric

---
 src/magnopy/io/txt/vampire.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/vampire.py b/src/magnopy/io/txt/vampire.py
index 9439411..50effa5 100644
--- a/src/magnopy/io/txt/vampire.py
+++ b/src/magnopy/io/txt/vampire.py
@@ -140,9 +140,10 @@ def dump_mat(spinham: SpinHamiltonian, filename=None, materials=None, nologo=Fal
             text.append(f"material[{m_i}]:material-name = {atom.name}")
             text.append(f"material[{m_i}]:material-element = {atom.type}")
             text.append(f"material[{m_i}]:atomic-spin-moment={atom.spin} ! muB")
-            if atom._spin_direction is not None:
+            if atom.spin > 0:
+                spin_direction = atom.spin_vector / atom.spin
                 text.append(
-                    f"material[{m_i}]:initial-spin-direction = {atom.spin_direction[0]:.8f},{atom.spin_direction[1]:.8f},{atom.spin_direction[2]:.8f}"
+                    f"material[{m_i}]:initial-spin-direction = {spin_direction[0]:.8f},{spin_direction[1]:.8f},{spin_direction[2]:.8f}"
                 )
             else:
                 text.append(f"material[{m_i}]:initial-spin-direction = random")
-- 
2.43.0


From 6ac96362a0c825cc0c1b3e423003e5737dc37a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 20/55] fix: units of the exchange section are respected when
 the text file is loaded

---
 src/magnopy/io/txt/internal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 325cd5a..0796c39 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -654,7 +654,7 @@ def _read_exchange(lines, spinham):
             + f"Will be converted to {ENERGY_NAME}.",
         )
     elif units.startswith("j"):
-        units_conversion = 1 / ENERGY_UNITS
+        units_conversion = 1 / ENERGY
         _logger.info(
             "Exchange parameters are provided in Joule. "
             + f" Will be converted to {ENERGY_NAME}.",
@@ -761,10 +761,11 @@ def _read_bond(lines, spinham: SpinHamiltonian, units_conversion=1):
             for j in range(3):
                 i += 1
                 matrix[j] = [float(x) for x in lines[i].split()]
-        spinham.add_exchange(
-            name1, name2, R, matrix=matrix, iso=iso, aniso=symm, dmi=dmi
-        )
         i += 1
+
+    parameter = MatrixParameter(matrix=matrix, iso=iso, aniso=symm, dmi=dmi)
+    spinham.add_exchange(name1, name2, R, parameter=parameter * units_conversion)
+
     return spinham
 
 
-- 
2.43.0


From b545a5896f5d38e0e9bc00d76645bb5cd19498d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 21/55] fix: spiral vector is the same after it is saved to and
 loaded from the text file

---
 src/magnopy/io/txt/internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 0796c39..6f100c6 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -1017,8 +1017,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     q = [float(x) for x in lines[1].split()]
 
-    if relative:
-        q = q @ spinham.reciprocal_cell
+    # Spin Hamiltonian stores spiral vector in the relative coordinates
+    if not relative:
+        q = absolute_to_relative(q, spinham.reciprocal_cell)
 
     spinham.spiral_vector = q
 
-- 
2.43.0


From ef8547d347a73b084d09fb68cca30e44a72427a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 22/55] fix: filtered copy of the text file can be saved

---
 src/magnopy/io/txt/internal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 6f100c6..7bec6a9 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -17,6 +17,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 import logging
+import os
 
 import numpy as np
 from wulfric import TORADIANS, Atom, absolute_to_relative, volume
@@ -1087,7 +1088,8 @@ def _filter_txt_file(filename=None, lines=None, save_filtered=False):
 
     # Save filtered copy of the file
     if save_filtered:
-        filtered_filename = f"filtered_{filename}"
+        head, tail = os.path.split(filename)
+        filtered_filename = os.path.join(head, f"filtered_{tail}")
         with open(filtered_filename, "w", encoding="utf-8") as f:
             f.write("\n".join(filtered_lines))
         _logger.debug(
-- 
2.43.0


From fd3418487633d7d1ae38932193d917373c0da5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 23/55] fix: spins written as angles are the same after the
 text file is loaded

---
 src/magnopy/geometry.py        | 14 +++++++-------
 src/magnopy/io/txt/internal.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/magnopy/geometry.py b/src/magnopy/geometry.py
index d162c81..ba925aa 100644
--- a/src/magnopy/geometry.py
+++ b/src/magnopy/geometry.py
@@ -40,20 +40,20 @@ def vector_to_angles(vector, in_degrees=True):
         Whether to return angles in degrees or radians.
 
     """
-    modulus = np.linalg.notm(vector)
+    modulus = np.linalg.norm(vector)
 
-    if np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
+    # Direction is not defined for the zero vector
+    if modulus == 0:
+        polar, azimuthal = 0, np.pi / 2
+    elif np.allclose(vector / modulus, [0.0, 0.0, 1.0]):
         polar, azimuthal = 0, np.pi / 2
     elif np.allclose(vector / modulus, [0.0, 0.0, -1.0]):
         polar, azimuthal = np.pi, np.pi / 2
     else:
         polar = np.arccos(np.dot(vector, [0, 0, 1]) / modulus)
-        xy_projection = np.array([vector[0], vector[1], 0])
-        azimuthal = np.arccos(
-            np.dot(xy_projection, [1, 0, 0]) / np.linalg.norm(xy_projection)
-        )
+        azimuthal = np.arctan2(vector[1], vector[0])
 
-    if in_degreees:
+    if in_degrees:
         return modulus, polar * TODEGREES, azimuthal * TODEGREES
     else:
         return modulus, polar, azimuthal
diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 7bec6a9..9e3832f 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -213,8 +213,8 @@ def dump_spinham_txt(
                 S, theta, phi = vector_to_angles(atom.spin_vector, in_degrees=True)
                 text[-1] += " " + " ".join(
                     [
-                        f"t{theta:8.4f}",
-                        f"p{phi:8.4f}",
+                        f"{theta:8.4f}",
+                        f"{phi:8.4f}",
                         f"{S:8.4f}",
                     ]
                 )
-- 
2.43.0


From 4bc5e864cb6665e9ef6f980bb9e0f9904a38377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 24/55] fix: g factors are saved to the text file

---
 src/magnopy/io/txt/internal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 9e3832f..ce99ea5 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -197,6 +197,7 @@ def dump_spinham_txt(
         text[-1] += f" {'St':>6} {'Sp':>6} {'S':>6}"
     else:
         text[-1] += f" {'Sx':>8} {'Sy':>8} {'Sz':>8}"
+    text[-1] += f" {'g':>8}"
     for atom in spinham.atoms:
         text.append(
             " ".join(
@@ -234,6 +235,7 @@ def dump_spinham_txt(
                     f"{'-':>8}",
                 ]
             )
+        text[-1] += f" {atom.g_factor:8.4f}"
     text.append(SEPARATOR)
 
     # Write notation
-- 
2.43.0


From 7293663e7c936efa3f69bdec465b972679326cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 25/55] fix: failed verification of the text file does not
 switch off tracebacks of the whole process

---
 src/magnopy/io/txt/verify.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index 0a6f93b..b156eed 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -1550,9 +1550,6 @@ def _verify_model_file(lines, line_indices, raise_on_fail=True, return_sections=
     else:
         if raise_on_fail:
             _logger.info("Model file verification finished: FAILED")
-            import sys
-
-            sys.tracebacklimit = 0
             raise FailedToVerifyTxtModelFile("Check log files for the details")
         else:
             _logger.info("Model file verification finished: FAILED")
-- 
2.43.0


From f6da7a8c8cb6e2b91c98dc9b5e4c02672d5323f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 26/55] fix: TB2J file is closed after it is read

---
 src/magnopy/io/txt/tb2j.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/tb2j.py b/src/magnopy/io/txt/tb2j.py
index 85605e6..4673848 100644
--- a/src/magnopy/io/txt/tb2j.py
+++ b/src/magnopy/io/txt/tb2j.py
@@ -18,6 +18,8 @@
 
 __all__ = ["load_tb2j"]
 
+from io import StringIO
+
 import numpy as np
 from wulfric import REL_TOL
 
@@ -86,7 +88,8 @@ def load_tb2j(filename, quiet=True, bravais_type=None) -> SpinHamiltonian:
     aniso_flag = "J_ani:"
     dmi_flag = "DMI:"
 
-    file = open(filename, "r")
+    with open(filename, "r") as tb2j_file:
+        file = StringIO(tb2j_file.read())
     model = SpinHamiltonian(notation="TB2J")
     line = True
 
-- 
2.43.0


From ca937fbdd030cd0cb65f35d0660bf693298e94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 27/55] fix: every antiferromagnetic minimization has its own
 history file and its energy in the summary

---
 src/magnopy/score/minimize_energy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index f83c46f..d3bdb42 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -92,10 +92,10 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
         output_file.write(
             f"  {'name':>5} {'r1':>11} {'r2':>11} {'r3':>11} {'sx':>11} {'sy':>11} {'sz':>11}\n"
         )
-        for i, spin in enumerate(spin_orientation):
-            pos = spinham.magnetic_atoms[i].position
+        for s_i, spin in enumerate(spin_orientation):
+            pos = spinham.magnetic_atoms[s_i].position
             output_file.write(
-                f"  {spinham.magnetic_atoms[i].name:>5} "
+                f"  {spinham.magnetic_atoms[s_i].name:>5} "
                 f"{pos[0]:11.8f} {pos[1]:11.8f} {pos[2]:11.8f} "
                 f"{spin[0]:11.8f} {spin[1]:11.8f} {spin[2]:11.8f}\n"
             )
@@ -209,8 +209,8 @@ def manager(
             output_file.write(f"Ferromagnetic energy : {energies[i]:.8f}\n")
         if gs_to_minimize[i] == "antiferro":
             output_file.write(f"Antiferromagnetic energies :\n")
-            for i in range(26):
-                output_file.write(f"  {i+1} {energies[i]:.8f}\n")
+            for q_i in range(26):
+                output_file.write(f"  {q_i+1} {energies[i][q_i]:.8f}\n")
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
-- 
2.43.0


From 25bbde3fc8d22c5a7e32901d6c8b2e95d137fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:02 +0000
Subject: [PATCH 28/55] fix: results of the minimization are on the disk when
 it is done

---
 src/magnopy/score/minimize_energy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index d3bdb42..1c01917 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -214,6 +214,8 @@ def manager(
         if gs_to_minimize[i] == "spiral":
             output_file.write(f"Spiral energy : {energies[i]:.8f}\n")
 
+    output_file.close()
+
 
 def create_parser():
     parser = ArgumentParser()
-- 
2.43.0


From a1c9e68fb5c75bc450afc8c23b19f79ebb9ce6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 29/55] fix: order of atoms and parameters is the same after
 they are saved to and loaded from the hdf5 file

---
 src/magnopy/io/hdf5/internal.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index c462a88..f3d7f2a 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -37,6 +37,15 @@ _logger = logging.getLogger(__name__)
 __all__ = ["load_spinham_hdf5", "dump_spinham_hdf5"]
 
 
+def _ordered(group):
+    r"""
+    Names of the entries of the group in the order in which they were saved.
+
+    HDF5 iterates in the alphabetic order ("1", "10", "2"), but the names are numbers.
+    """
+    return sorted(group, key=lambda name: (len(name), name))
+
+
 def load_spinham_hdf5(
     filename,
     groupname=None,
@@ -129,7 +138,7 @@ def load_spinham_hdf5(
 
     # Read the atoms
     atoms = root_group["atoms"]
-    for index in atoms:
+    for index in _ordered(atoms):
         atom = atoms[index]
         name = atom["name"][()].decode("utf-8")
         if _verify_atom_name(name, line_index="hdf5 file"):
@@ -211,7 +220,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{exchange.attrs['units']}'.")
 
-        for index in exchange:
+        for index in _ordered(exchange):
             bond = exchange[index]
             atom1 = bond["atom-1"][()].decode("utf-8")
             try:
@@ -251,7 +260,7 @@ def load_spinham_hdf5(
             )
             raise ValueError(f"Unknown units '{on_site.attrs['units']}'.")
 
-        for index in on_site:
+        for index in _ordered(on_site):
             parameters = on_site[index]
             atom = parameters["atom"][()].decode("utf-8")
             try:
-- 
2.43.0


From 34f0d105abe2612705884ba2fc41e79ead85b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 30/55] fix: hdf5 file is closed after it is read

---
 src/magnopy/io/hdf5/internal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index f3d7f2a..5b9a24f 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -79,9 +79,13 @@ def load_spinham_hdf5(
         The SpinHamiltonian object loaded from the file.
     """
 
-    # Open a file and try to detect the desired group
-    file = h5py.File(filename, "r")
+    # The file is closed even if it can not be read
+    with h5py.File(filename, "r") as file:
+        return _load_spinham_hdf5(file, filename, groupname)
 
+
+def _load_spinham_hdf5(file, filename, groupname=None) -> SpinHamiltonian:
+    # Try to detect the desired group
     if groupname is None:
         _logger.info(f"Groupname not provided, trying to detect it in file {filename}.")
 
-- 
2.43.0


From aac52839269cd5d70eb613fdd63b9165d1aa8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 31/55] fix: failed dump to hdf5 neither spoils the file nor
 leaves it open

---
 src/magnopy/io/hdf5/internal.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 5b9a24f..92b464e 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -341,18 +341,22 @@ def dump_spinham_hdf5(
         existing ``filename``.
     """
 
-    file = h5py.File(filename, "a")
-    try:
-        root_group = file.create_group(groupname)
-    except ValueError:
-        if overwrite:
-            del file[groupname]
-            root_group = file.create_group(groupname)
-        else:
-            raise FileExistsError(
-                f"Group {groupname} already exists in file {filename}."
-            )
+    # The group is prepared in memory, the file is not touched until it is complete
+    with h5py.File("spinham", "w", driver="core", backing_store=False) as tmp_file:
+        _dump_spinham_hdf5(spinham, tmp_file.create_group("spinham"))
+
+        with h5py.File(filename, "a") as file:
+            if groupname in file:
+                if not overwrite:
+                    raise FileExistsError(
+                        f"Group {groupname} already exists in file {filename}."
+                    )
+                del file[groupname]
 
+            tmp_file.copy("spinham", file, name=groupname)
+
+
+def _dump_spinham_hdf5(spinham: SpinHamiltonian, root_group) -> None:
     root_group.attrs["type"] = "SpinHamiltonian"
 
     # Cell
@@ -426,6 +430,3 @@ def dump_spinham_hdf5(
             "cone-axis", data=spinham.cone_axis, dtype=float
         )
         cone_axis.attrs["units"] = "Absolute"
-
-    if filename is not None:
-        file.close()
-- 
2.43.0


From 9e3dee6c3332806654f18b6a396b4bbd2731d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 32/55] fix: switching double counting off keeps the bond
 between two atoms with the same index

---
 src/magnopy/spinham/hamiltonian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index e706649..6e946f7 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -347,7 +347,11 @@ class SpinHamiltonian(Crystal):
                 i > 0
                 or (i == 0 and j > 0)
                 or (i == 0 and j == 0 and k > 0)
-                or (i == 0 and j == 0 and k == 0 and atom1.index <= atom2.index)
+                # Index of the atom is not unique, (index, name) is
+                or (
+                    (i, j, k) == (0, 0, 0)
+                    and (atom1.index, atom1.name) <= (atom2.index, atom2.name)
+                )
             ):
                 # Remember  mirrored bond  for removal, if it is in the model
                 if (atom2, atom1, (-i, -j, -k)) in self:
-- 
2.43.0


From fd2e2cdebeff91542426423be34bfe5d1dfd0279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 33/55] fix: exchange bond with a wrong second atom or a wrong
 parameter leaves the Hamiltonian unchanged

---
 src/magnopy/spinham/hamiltonian.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 6e946f7..1a19ed0 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -723,24 +723,29 @@ class SpinHamiltonian(Crystal):
         i, j, k = ijk
         ijk, mirrored_ijk = (i, j, k), (-i, -j, -k)
 
+        # If the notation is not defined yet, then we do not need to add a mirrored bond,
+        # since it is not clear wether the mirrored bond has to be added or not
+        mirrored_bond = (atom2, atom1, mirrored_ijk)
+        add_mirrored = bool(self._double_counting)
+        mirrored_parameter = parameter.T if add_mirrored else None
+
+        for atom in (atom1, atom2):
+            if not isinstance(atom, Atom):
+                raise TypeError(f"Atom or its name is expected, got {type(atom)}")
+        add_atom1 = atom1 not in self.atoms
+        add_atom2 = atom2 not in self.atoms and atom2 not in [atom1]
+
         # Add atoms to the Hamiltonian if they are not in it
-        if atom1 not in self.atoms:
+        if add_atom1:
             self.add_atom(atom1)
-        if atom2 not in self.atoms:
+        if add_atom2:
             self.add_atom(atom2)
 
         self._exchange[(atom1, atom2, ijk)] = parameter
 
         # Check for double counting
-        try:
-            mirrored_bond = (atom2, atom1, mirrored_ijk)
-            if self.double_counting and mirrored_bond != (atom1, atom2, ijk):
-                self._exchange[mirrored_bond] = parameter.T
-        # If it fails, then we do not need to add a mirrored bond, since the notation
-        # is not defined yet and it is not clear wether the mirrored bond has to
-        # be added or not
-        except NotationError:
-            pass
+        if add_mirrored and mirrored_bond != (atom1, atom2, ijk):
+            self._exchange[mirrored_bond] = mirrored_parameter
 
     def remove_exchange(self, atom1: Atom, atom2: Atom, ijk, raise_if_no_bond=True):
         r"""
-- 
2.43.0


From 0b6a954fe47afa453256251b724773caeaced1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:22 +0000
Subject: [PATCH 34/55] fix: Hamiltonians can be saved to several hdf5 files at
 the same time

---
 src/magnopy/io/hdf5/internal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/hdf5/internal.py b/src/magnopy/io/hdf5/internal.py
index 92b464e..3bea0e3 100644
--- a/src/magnopy/io/hdf5/internal.py
+++ b/src/magnopy/io/hdf5/internal.py
@@ -17,6 +17,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 import logging
+from uuid import uuid4
 
 import h5py
 from wulfric.geometry import absolute_to_relative
@@ -342,7 +343,10 @@ def dump_spinham_hdf5(
     """
 
     # The group is prepared in memory, the file is not touched until it is complete
-    with h5py.File("spinham", "w", driver="core", backing_store=False) as tmp_file:
+    # (name is unique, as hdf5 identifies files in memory by their names).
+    with h5py.File(
+        f"spinham-{uuid4()}", "w", driver="core", backing_store=False
+    ) as tmp_file:
         _dump_spinham_hdf5(spinham, tmp_file.create_group("spinham"))
 
         with h5py.File(filename, "a") as file:
-- 
2.43.0


From 3dc74412cf5431db1b40dc094cdb087a99bdf5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:24 +0000
Subject: [PATCH 35/55] fix: results of the minimization can be written with
 any locale

---
 src/magnopy/score/minimize_energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 1c01917..4e643bd 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -153,7 +153,7 @@ def manager(
     output_seedname="minim",
 ):
     # Open main output file
-    output_file = open(f"{output_seedname}-results", "w")
+    output_file = open(f"{output_seedname}-results", "w", encoding="utf-8")
     # Write a logo
     output_file.write(logo(date_time=True) + "\n")
 
-- 
2.43.0


From e3c93f0b86e0771a3923488cb4ed458912e0e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:30 +0000
Subject: [PATCH 36/55] fix: results, history files and summary of antiferro
 minimizations have the same numbers from 1 to 26

---
 src/magnopy/score/minimize_energy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 4e643bd..6def373 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -67,16 +67,16 @@ def _minimize_antiferro(energy: Energy, spinham, seedname, output_file):
     i = 0
     energies = []
     for qrel in (np.indices((3, 3, 3)) - 1).transpose((1, 2, 3, 0)).reshape(27, 3):
-        i += 1
         print(qrel)
-        history_file = f"{seedname}-antiferro-history-{i}"
         if (qrel == [0, 0, 0]).all():
             continue
+        i += 1
+        history_file = f"{seedname}-antiferro-history-{i}"
 
         q = qrel @ spinham.reciprocal_cell / 2
         output_file.write(
             f"History for the q_rel = ({qrel[0]:2.0f}, {qrel[1]:2.0f}, {qrel[2]:2.0f}) "
-            f"is written to the file {history_file}"
+            f"is written to the file {history_file}\n"
         )
 
         spin_orientation, cone_axis, _ = energy.optimize(
-- 
2.43.0


From d9eb417abe578f21f9efe85e4a07e5ec7c3e0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:19 +0000
Subject: [PATCH 37/55] fix: blocks with the "-" symbol in the atoms section
 are skipped when the text file is loaded

---
 src/magnopy/io/txt/internal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index ce99ea5..5c8ff77 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -483,11 +483,16 @@ def _read_atoms(lines, spinham: SpinHamiltonian, scale):
     )
 
     # Read atom's data header
-    data_header = lines[1].lower().split()
+    full_data_header = lines[1].lower().split()
 
     # Read atoms's information
     for line in lines[2:]:
         line = line.split()
+        # Blocks with the "-" symbol are skipped for this atom
+        data_header = [
+            keyword if block != "-" else None
+            for keyword, block in zip(full_data_header, line)
+        ]
         name = line[data_header.index("name")]
 
         # Find the coordinates
-- 
2.43.0


From 720bd00003c9da5545fd4f2149ab4977a970b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:19 +0000
Subject: [PATCH 38/55] fix: "relative" keyword is allowed in the header of the
 atoms section of the text file

---
 src/magnopy/io/txt/verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/io/txt/verify.py b/src/magnopy/io/txt/verify.py
index b156eed..e491e90 100644
--- a/src/magnopy/io/txt/verify.py
+++ b/src/magnopy/io/txt/verify.py
@@ -738,7 +738,7 @@ def _verify_atoms(lines, line_indices):
     # Starting from this line it is assumed that the section has at least 3 lines
 
     # Check the section header
-    errors = errors or _verify_section_header(lines[0], line_indices[0], ["a", "b"])
+    errors = errors or _verify_section_header(lines[0], line_indices[0], ["a", "b", "r"])
 
     # Check the data header
     N, name_index, data_header_errors = _verify_atoms_data_header(
-- 
2.43.0


From 27658d33c33595673a2936aba2969133397fd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:06 +0000
Subject: [PATCH 39/55] fix: absolute spiral vector is read in the inverse
 units of the cell section

---
 src/magnopy/io/txt/internal.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/io/txt/internal.py b/src/magnopy/io/txt/internal.py
index 5c8ff77..936b29b 100644
--- a/src/magnopy/io/txt/internal.py
+++ b/src/magnopy/io/txt/internal.py
@@ -349,6 +349,8 @@ def _read_cell(lines):
     scale : (3,) :numpy:`ndarray`
         Scale factors for the lattice vectors and absolute atom coordinates.
         Index corresponds to the component.
+    units_conversion : float
+        Conversion factor from the units of the section to the default units of magnopy.
 
     Notes
     -----
@@ -419,7 +421,7 @@ def _read_cell(lines):
     # Apply the scale factor
     cell *= scale
 
-    return cell, scale
+    return cell, scale, units_conversion
 
 
 def _read_atoms(lines, spinham: SpinHamiltonian, scale):
@@ -965,7 +967,7 @@ def _read_cone_axis(lines, spinham: SpinHamiltonian):
     return spinham
 
 
-def _read_spiral_vector(lines, spinham: SpinHamiltonian):
+def _read_spiral_vector(lines, spinham: SpinHamiltonian, length_conversion=1.0):
     R"""
     Read information from the spiral-vector section as described in the documentation.
 
@@ -989,6 +991,9 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
         Parameters section of the input file.
     spinham : :py:class:`.SpinHamiltonian`
         Spin Hamiltonian, where the data are saved.
+    length_conversion : float, default 1.0
+        Conversion factor from the units of the cell section to the default units of
+        magnopy. Absolute coordinates are given in the inverse units of the cell section.
 
     Returns
     -------
@@ -1027,6 +1032,7 @@ def _read_spiral_vector(lines, spinham: SpinHamiltonian):
 
     # Spin Hamiltonian stores spiral vector in the relative coordinates
     if not relative:
+        q = np.array(q, dtype=float) / length_conversion
         q = absolute_to_relative(q, spinham.reciprocal_cell)
 
     spinham.spiral_vector = q
@@ -1142,7 +1148,7 @@ def load_spinham_txt(filename, save_filtered=False, verbose=False) -> SpinHamilt
     spinham = SpinHamiltonian()
 
     # Read the cell
-    cell, scale = _read_cell(lines[slice(*sections["cell"])])
+    cell, scale, length_conversion = _read_cell(lines[slice(*sections["cell"])])
     spinham.cell = cell
 
     # Read atoms
@@ -1166,6 +1172,10 @@ def load_spinham_txt(filename, save_filtered=False, verbose=False) -> SpinHamilt
 
     # If present read spiral-vector
     if "spiral-vector" in sections:
-        _read_spiral_vector(lines[slice(*sections["spiral-vector"])], spinham)
+        _read_spiral_vector(
+            lines[slice(*sections["spiral-vector"])],
+            spinham,
+            length_conversion=length_conversion,
+        )
 
     return spinham
-- 
2.43.0


From 47e39f6da4cf3b22360476bdf4348c65ee75df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:01 +0000
Subject: [PATCH 40/55] fix: standardization of the cell keeps exchange bonds
 and spiral vector

---
 src/magnopy/spinham/hamiltonian.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 1a19ed0..15abb2d 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -616,6 +616,36 @@ class SpinHamiltonian(Crystal):
                 + f"two Atoms or strings and a tuple of three integers. Got {key}"
             )
 
+    ################################################################################
+    #                             Standardization of cell                          #
+    ################################################################################
+    def standardize(self):
+        R"""
+        Standardize cell with respect to the Bravais lattice type.
+
+        Atoms, exchange bonds and spiral vector are described with respect to the
+        standardized cell, therefore, the physical system does not change.
+
+        See Also
+        --------
+        wulfric.Crystal.standardize
+        """
+
+        # The matrix connects old and new cell, hence it is computed before the
+        # standardization. Its elements are integers.
+        S = np.rint(self.S_matrix).astype(int)
+
+        super().standardize()
+
+        exchange = {}
+        for (atom1, atom2, ijk), parameter in self._exchange.items():
+            ijk = tuple(int(x) for x in S @ np.array(ijk, dtype=int))
+            exchange[(atom1, atom2, ijk)] = parameter
+        self._exchange = exchange
+
+        if self._spiral_vector is not None:
+            self._spiral_vector = np.linalg.inv(S).T @ self._spiral_vector
+
     ################################################################################
     #                                  Copy getter                                 #
     ################################################################################
-- 
2.43.0


From 2428039e2f0d8e3b98ecedddd54503ea1b7a4f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:47 +0000
Subject: [PATCH 41/55] fix: Zeeman energy is proportional to the spin values

---
 src/magnopy/spinham/energy.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 6f857e6..706174b 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1089,7 +1089,11 @@ class Energy:
         # Compute zeeman energy
         if self.magnetic_field is not None:
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, spin_orientation
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                spin_orientation,
             )
 
         return energy
@@ -1207,7 +1211,11 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
@@ -1328,7 +1336,11 @@ class Energy:
                 "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
             )
             energy += BOHR_MAGNETON * np.einsum(
-                "i,j,ij", self._g_factors, self.magnetic_field, so_prime
+                "i,i,j,ij",
+                self._g_factors,
+                self._spins,
+                self.magnetic_field,
+                so_prime,
             )
 
         return energy
-- 
2.43.0


From 17d23bf64bf60a0bc52920b6074ac385fcad24a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:47 +0000
Subject: [PATCH 42/55] fix: only spin components along the cone axis
 contribute to Zeeman energy of cone and spiral states

---
 src/magnopy/spinham/energy.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 706174b..bf84042 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1207,9 +1207,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij",
                 self._g_factors,
@@ -1332,9 +1330,7 @@ class Energy:
 
         # Compute zeeman energy
         if self.magnetic_field is not None:
-            so_prime = np.einsum(
-                "jk,ik ->ij", (np.eye(3, dtype=float) + IK_sq), spin_orientation
-            )
+            so_prime = np.einsum("jk,ik ->ij", IK_sq, spin_orientation)
             energy += BOHR_MAGNETON * np.einsum(
                 "i,i,j,ij",
                 self._g_factors,
-- 
2.43.0


From 62f0a4efdae6d9d2c30dd71d93ec2467125606f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:51 +0000
Subject: [PATCH 43/55] fix: transformation matrix of degenerate magnon modes
 diagonalizes the Hamiltonian

---
 src/magnopy/magnons/diagonalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/diagonalization.py b/src/magnopy/magnons/diagonalization.py
index 5d16eff..72e02dc 100644
--- a/src/magnopy/magnons/diagonalization.py
+++ b/src/magnopy/magnons/diagonalization.py
@@ -129,7 +129,8 @@ def solve_via_colpa(D):
     except LinAlgError:
         raise ColpaFailed
 
-    L, U = np.linalg.eig(K @ g @ np.conjugate(K).T)
+    # The matrix is Hermitian, eigenvectors have to be orthogonal for equal eigenvalues
+    L, U = np.linalg.eigh(K @ g @ np.conjugate(K).T)
 
     # Sort with respect to L, in descending order
     U = np.concatenate((L[:, None], U.T), axis=1).T
-- 
2.43.0


From 762e9eec790cc15925b9628658a44a1bdfef52ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:51 +0000
Subject: [PATCH 44/55] fix: 2N magnon energies are returned with the
 transformation matrix if Colpa fails

---
 src/magnopy/magnons/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/magnons/dispersion.py b/src/magnopy/magnons/dispersion.py
index 87fe7da..b20f794 100644
--- a/src/magnopy/magnons/dispersion.py
+++ b/src/magnopy/magnons/dispersion.py
@@ -335,7 +335,7 @@ class MagnonDispersion:
                                 G = np.empty((2 * self.N, 2 * self.N), dtype=float)
 
                         else:
-                            omegas = np.zeros(self.N, dtype=float)
+                            omegas = np.zeros(2 * self.N, dtype=float)
                             if return_G:
                                 G = np.zeros((2 * self.N, 2 * self.N), dtype=float)
         omegas[np.abs(omegas) <= 1e-8] = 0
-- 
2.43.0


From bce9c03685dbefa4ab321e0a1b470beb7781122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:13 +0000
Subject: [PATCH 45/55] fix: antiferromagnetic minimisation moves the cone axis

The gradient with respect to the cone axis was written over the one of the last
spin and the cone axis was never updated.
---
 src/magnopy/spinham/energy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index bf84042..191fbca 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -242,9 +242,9 @@ def _update_x_antiferro(x, search_direction, step=1):
     """
     x_0 = x[0].copy()
     x_1 = x[1]
-    a12 = search_direction[:-3:3] * step
-    a13 = search_direction[1:-3:3] * step
-    a23 = search_direction[2:-3:3] * step
+    a12 = search_direction[::3] * step
+    a13 = search_direction[1::3] * step
+    a23 = search_direction[2::3] * step
 
     thetas = np.sqrt(a12**2 + a13**2 + a23**2)
 
@@ -913,9 +913,9 @@ class Energy:
         t = np.cross(cone_axis, gradient)
         for j in range(0, 3):
             torques[-1][j] = t[j]
-        gradient_vector[-6] = t[2]
-        gradient_vector[-5] = -t[1]
-        gradient_vector[-4] = t[0]
+        gradient_vector[-3] = t[2]
+        gradient_vector[-2] = -t[1]
+        gradient_vector[-1] = t[0]
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From 2424f5ddeaa447e900ee510e52050f47f343c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:13 +0000
Subject: [PATCH 46/55] fix: spiral minimisation moves the spiral vector
 against the gradient

Search direction is the gradient with the opposite sign (see the part for spins),
the spiral vector was moved towards higher energy.
---
 src/magnopy/spinham/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 191fbca..7527b7c 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1020,7 +1020,7 @@ class Energy:
             )
         # print(f"\n\n{gradient}\n\n")
 
-        gradient_vector[-3:] = gradient
+        gradient_vector[-3:] = -gradient
 
         if return_results:
             return gradient_vector, torques
-- 
2.43.0


From 9dbd1a31d498b1ecac621111892e84602ee8c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:13 +0000
Subject: [PATCH 47/55] fix: line search accepts only steps that decrease the
 energy enough

Vector of the gradient points downhill, the first Wolfe condition allowed the
energy to grow.
---
 src/magnopy/spinham/energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 7527b7c..1707a2e 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1749,7 +1749,7 @@ class Energy:
         nabla = _grad(*_unpack(x))[0]
         i = 0
         tmp = [[], [], []]
-        while energy(*_unpack(x_new)) > fx + (
+        while energy(*_unpack(x_new)) > fx - (
             self._wolfe_c1 * step * nabla.T @ search_direction
         ) or abs(nabla_new.T @ search_direction) > abs(
             self._wolfe_c2 * nabla.T @ search_direction
@@ -1766,7 +1766,7 @@ class Energy:
             # )
             tmp[0].append(step)
             tmp[1].append(energy(*_unpack(x_new)))
-            tmp[2].append(fx + step * self._wolfe_c1 * nabla.T @ search_direction)
+            tmp[2].append(fx - step * self._wolfe_c1 * nabla.T @ search_direction)
             if i > self._wolfe_iter_max:
                 print("\n\n")
                 # TODO go into the details and deal with the failing cases
-- 
2.43.0


From acde9c01e1b6d3cbba4e43c9b31e145c8d2b5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:13 +0000
Subject: [PATCH 48/55] fix: search direction of L-BFGS

The first loop of the recursion was empty, difference of gradients had the
opposite sign and the scale of the initial Hessian was not squared. Equal
gradients of two steps divided by zero.
---
 src/magnopy/spinham/energy.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 1707a2e..1bb8a17 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1705,10 +1705,10 @@ class Energy:
             search_direction = gradient_vector
         else:
             self._d_vec[n] = previous_lambda * previous_search_direction
-            self._y_vec[n] = gradient_vector - previous_gradient_vector
-            self._rho[n] = 1 / (self._d_vec[n] @ self._y_vec[n])
+            self._y_vec[n] = previous_gradient_vector - gradient_vector
+            curvature = self._d_vec[n] @ self._y_vec[n]
 
-            if self._rho[n] < 0:
+            if curvature < np.finfo(float).tiny:
                 return (
                     0,
                     self._compute_search_direction(0, gradient_vector=gradient_vector)[
@@ -1716,13 +1716,15 @@ class Energy:
                     ],
                 )
 
+            self._rho[n] = 1 / curvature
+
             q = gradient_vector.copy()
 
-            for l in range(self._m - 1, -1):
+            for l in range(self._m - 1, -1, -1):
                 j = (l + n + 1) % self._m
                 self._gamma[j] = self._rho[j] * (self._d_vec[j] @ q)
                 q = q - self._gamma[j] * self._y_vec[j]
-            search_direction = q / self._rho[n] / (np.linalg.norm(self._y_vec[n]))
+            search_direction = q / self._rho[n] / np.linalg.norm(self._y_vec[n]) ** 2
             for l in range(0, self._m):
                 if k < self._m:
                     j = l
-- 
2.43.0


From b18ccfb3932045f84979b6de3fec7eb38d050df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:10 +0000
Subject: [PATCH 49/55] fix: minimisation with zero tolerance makes steps

The loop was never started and the initial guess was returned as the minimum.
---
 src/magnopy/spinham/energy.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 1bb8a17..0505a59 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1560,10 +1560,8 @@ class Energy:
         torque_targets = [2 * a for a in tolerance[1:]]
         energy_diff = tolerance[0] * 2
 
-        # Compute condition for the loop
-        condition = energy_diff > tolerance[0]
-        for i in range(len(torque_targets)):
-            condition = condition or torque_targets[i] > tolerance[i + 1]
+        # At least one step is made, whatever the tolerances are
+        condition = True
 
         # Save initial guess and its energy, conv_targets are meaningless
         # but saved so the history will have the same format for each step
-- 
2.43.0


From dc81170e0f5c13831654501f150655838851307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:24 +0000
Subject: [PATCH 50/55] fix: order of magnetic atoms with the same index does
 not depend on the notation

---
 src/magnopy/spinham/hamiltonian.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 15abb2d..3ff9db7 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -680,18 +680,20 @@ class SpinHamiltonian(Crystal):
         magnetic_atoms : list of :ref:`wulfric:api_Atom`
             List of magnetic atoms.
         """
-        # Keys of the dictionary are ordered, so the order of the atoms with the same
-        # index does not depend on their hashes
-        result = {}
+        result = set()
         # Look through the exchange terms
         for atom1, atom2, _ in self._exchange:
-            result[atom1] = None
-            result[atom2] = None
+            result.add(atom1)
+            result.add(atom2)
         # Look through the on-site terms
         for atom in self._on_site:
-            result[atom] = None
+            result.add(atom)
 
-        return sorted(result, key=lambda x: x.index)
+        # Atoms with the same index are ordered as they are in the crystal. The order
+        # depends neither on their hashes nor on the way the parameters are stored.
+        return sorted(
+            [atom for atom in self.atoms if atom in result], key=lambda x: x.index
+        )
 
     @property
     def I(self):
-- 
2.43.0


From 452c4ea2131387d4fd7457c4aa48ec44e118cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 51/55] fix: minimise command keeps earlier results when the
 model can not be loaded

---
 src/magnopy/score/minimize_energy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/magnopy/score/minimize_energy.py b/src/magnopy/score/minimize_energy.py
index 6def373..4949357 100644
--- a/src/magnopy/score/minimize_energy.py
+++ b/src/magnopy/score/minimize_energy.py
@@ -152,11 +152,6 @@ def manager(
     magnetic_field=None,
     output_seedname="minim",
 ):
-    # Open main output file
-    output_file = open(f"{output_seedname}-results", "w", encoding="utf-8")
-    # Write a logo
-    output_file.write(logo(date_time=True) + "\n")
-
     # Load spin Hamiltonian from the input file
     spinham = load_spinham(spinham, spinham_format=spinham_format)
 
@@ -167,6 +162,11 @@ def manager(
     if magnetic_field is not None:
         energy.magnetic_field = magnetic_field
 
+    # Open main output file
+    output_file = open(f"{output_seedname}-results", "w", encoding="utf-8")
+    # Write a logo
+    output_file.write(logo(date_time=True) + "\n")
+
     # Decide which ground state types to minimize
     if "all" in ground_state_type:
         gs_to_minimize = ["ferro", "antiferro", "spiral"]
-- 
2.43.0


From 2c155bd9bccb6db621bbdb06c6ad310e6078d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:06 +0000
Subject: [PATCH 52/55] fix: dispersion command makes its directory when there
 is something to write

---
 src/magnopy/score/magnon_dispersion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/score/magnon_dispersion.py b/src/magnopy/score/magnon_dispersion.py
index 15c2d05..5ef66af 100644
--- a/src/magnopy/score/magnon_dispersion.py
+++ b/src/magnopy/score/magnon_dispersion.py
@@ -52,10 +52,6 @@ def manager(
 
     output_name = os.path.join(out_head, out_tail)
 
-    # Create the output directory if it does not exist
-    if out_head != "":
-        os.makedirs(out_head, exist_ok=True)
-
     # Load spin Hamiltonian from the input file
     input_file = spinham
     spinham = load_spinham(spinham, spinham_format=spinham_format)
@@ -114,6 +110,10 @@ def manager(
 
     ax.set_xlim(kp.flatten_points()[0], kp.flatten_points()[-1])
 
+    # Create the output directory if it does not exist
+    if out_head != "":
+        os.makedirs(out_head, exist_ok=True)
+
     if save_txt:
         main_separator = "=" * 80 + "\n"
         info = [
-- 
2.43.0


From b6391a751404a660c8c602978abe1c6be2c077fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:38 +0000
Subject: [PATCH 53/55] fix: magnopy-dispersion closes its figure

---
 src/magnopy/score/magnon_dispersion.py | 63 ++++++++++++++------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/magnopy/score/magnon_dispersion.py b/src/magnopy/score/magnon_dispersion.py
index 5ef66af..327c7d2 100644
--- a/src/magnopy/score/magnon_dispersion.py
+++ b/src/magnopy/score/magnon_dispersion.py
@@ -86,30 +86,8 @@ def manager(
     # Get the magnon dispersion
     dispersion = MagnonDispersion(spinham)
 
-    fig, ax = plt.subplots()
-
     omegas = dispersion(kp)
 
-    ax.set_xticks(kp.ticks(), kp.labels, fontsize=15)
-    ax.set_ylabel("E, meV", fontsize=15)
-    ax.vlines(
-        kp.ticks(),
-        0,
-        1,
-        transform=ax.get_xaxis_transform(),
-        colors="black",
-        alpha=0.5,
-        lw=1,
-        ls="dashed",
-    )
-    colors = ["#174FD5", "#F8AB00", "#0CE1A2", "#FF003C", "#46EC00", "#9823C9"]
-    i = 0
-    for omega in omegas:
-        ax.plot(kp.flatten_points(), omega, color=colors[i % len(colors)])
-        i += 1
-
-    ax.set_xlim(kp.flatten_points()[0], kp.flatten_points()[-1])
-
     # Create the output directory if it does not exist
     if out_head != "":
         os.makedirs(out_head, exist_ok=True)
@@ -197,15 +175,40 @@ def manager(
             header=info,
             comments=comments,
         )
-    if interactive:
-        plt.show()
-    else:
-        plt.savefig(
-            f"{output_name}.png",
-            bbox_inches="tight",
-            dpi=600,
+    fig, ax = plt.subplots()
+    try:
+        ax.set_xticks(kp.ticks(), kp.labels, fontsize=15)
+        ax.set_ylabel("E, meV", fontsize=15)
+        ax.vlines(
+            kp.ticks(),
+            0,
+            1,
+            transform=ax.get_xaxis_transform(),
+            colors="black",
+            alpha=0.5,
+            lw=1,
+            ls="dashed",
         )
-        print(f"Results are in {os.path.abspath(out_head)}, seedname: {out_tail}.")
+        colors = ["#174FD5", "#F8AB00", "#0CE1A2", "#FF003C", "#46EC00", "#9823C9"]
+        i = 0
+        for omega in omegas:
+            ax.plot(kp.flatten_points(), omega, color=colors[i % len(colors)])
+            i += 1
+
+        ax.set_xlim(kp.flatten_points()[0], kp.flatten_points()[-1])
+
+        if interactive:
+            plt.show()
+        else:
+            plt.savefig(
+                f"{output_name}.png",
+                bbox_inches="tight",
+                dpi=600,
+            )
+            print(f"Results are in {os.path.abspath(out_head)}, seedname: {out_tail}.")
+    finally:
+        # pyplot keeps every figure until it is closed
+        plt.close(fig)
 
 
 def create_parser():
-- 
2.43.0


From 4bcd28e5c88f88150256d6b44d70dfb77ae70260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:38 +0000
Subject: [PATCH 54/55] fix: figure of a failed line search is closed when it
 can not be saved

---
 src/magnopy/spinham/energy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/magnopy/spinham/energy.py b/src/magnopy/spinham/energy.py
index 0505a59..d754109 100644
--- a/src/magnopy/spinham/energy.py
+++ b/src/magnopy/spinham/energy.py
@@ -1773,10 +1773,12 @@ class Energy:
                 import matplotlib.pyplot as plt
 
                 fig, ax = plt.subplots()
-                ax.plot(tmp[0], tmp[1], lw=1, color="black")
-                ax.plot(tmp[0], tmp[2], lw=1, color="tab:red")
-                plt.savefig("tmp.png", dpi=300, bbox_inches="tight")
-                plt.close()
+                try:
+                    ax.plot(tmp[0], tmp[1], lw=1, color="black")
+                    ax.plot(tmp[0], tmp[2], lw=1, color="tab:red")
+                    plt.savefig("tmp.png", dpi=300, bbox_inches="tight")
+                finally:
+                    plt.close()
                 # return 1
                 raise ValueError("Wolfe failed")
             i += 1
-- 
2.43.0


From d5cc174cae6244ed60f877612ed143ff6fbe8b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:24 +0000
Subject: [PATCH 55/55] fix: Hamiltonian does not share atoms with the crystal
 it was built from

---
 src/magnopy/spinham/hamiltonian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/magnopy/spinham/hamiltonian.py b/src/magnopy/spinham/hamiltonian.py
index 3ff9db7..1189487 100644
--- a/src/magnopy/spinham/hamiltonian.py
+++ b/src/magnopy/spinham/hamiltonian.py
@@ -64,7 +64,8 @@ class SpinHamiltonian(Crystal):
 
     def __init__(self, crystal: Crystal = None, notation=None, **kwargs) -> None:
         if crystal is not None:
-            kwargs["atoms"] = crystal.atoms
+            # Atoms are not shared with the crystal, see the crystal property
+            kwargs["atoms"] = deepcopy(crystal.atoms)
             kwargs["cell"] = crystal.cell
 
         super().__init__(**kwargs)
-- 
2.43.0

