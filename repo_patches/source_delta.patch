From 5f9d07efe0711223e5c7efadb08a52bfee3d983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 01/52] fix: restore the chemistry state if loading the
 chemistry attributes fails half way

---
 plaschem/chemistry.py | 50 ++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7af45a1..55f0629 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -560,26 +560,36 @@ class Chemistry(object):
             if xml_hash != self.xml_hash(self.xml_path):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
 
-        # all appears valid, so can start restoring the attributes:
-        # masks:
-        self._enabled_sp[enabled_sp_ids] = True
-        self._enabled_sp[disabled_sp_ids] = False
-        self._protected_sp[:] = False
-        self._protected_sp[protected_sp_ids] = True
-        self._adhoc_protected_sp[:] = False
-        self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
-        self._enabled_r[enabled_r_ids] = True
-        self._enabled_r[disabled_r_ids] = False
-        # ad-hoc attributes:
-        self.reset_adhoc_species_attributes('all')
-        for params_list in adhoc_species_attributes:
-            self.set_adhoc_species_attributes(*params_list)
-        self.reset_adhoc_reactions_attributes('all')
-        for params_list in adhoc_reactions_attributes:
-            self.set_adhoc_reactions_attributes(*params_list)
-
-        # assert consistency to be on a safe side:
-        self.assert_consistency()
+        # all appears valid, so can start restoring the attributes, but if they do turn out to be inconsistent with the
+        # chemistry on the way, the original state is put back:
+        original_state = {
+            attr: copy.deepcopy(getattr(self, attr)) for attr in
+            ('_enabled_sp', '_protected_sp', '_adhoc_protected_sp', '_enabled_r',
+             'adhoc_species_attributes', 'adhoc_reactions_attributes')
+        }
+        try:
+            # masks:
+            self._enabled_sp[enabled_sp_ids] = True
+            self._enabled_sp[disabled_sp_ids] = False
+            self._protected_sp[:] = False
+            self._protected_sp[protected_sp_ids] = True
+            self._adhoc_protected_sp[:] = False
+            self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
+            self._enabled_r[enabled_r_ids] = True
+            self._enabled_r[disabled_r_ids] = False
+            # ad-hoc attributes:
+            self.reset_adhoc_species_attributes('all')
+            for params_list in adhoc_species_attributes:
+                self.set_adhoc_species_attributes(*params_list)
+            self.reset_adhoc_reactions_attributes('all')
+            for params_list in adhoc_reactions_attributes:
+                self.set_adhoc_reactions_attributes(*params_list)
+
+            # assert consistency to be on a safe side:
+            self.assert_consistency()
+        except Exception:
+            self.__dict__.update(original_state)
+            raise
 
     @staticmethod
     def xml_hash(xml_path):
-- 
2.43.0


From c6649821cbdc6ff78db1801808b6c879875a5ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:20 +0000
Subject: [PATCH 02/52] fix: keep ad-hoc return coefficients of filtered out
 species out of the species return coefficients

---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 55f0629..1ac6a33 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -732,10 +732,10 @@ class Chemistry(object):
         species = self.get_species(disabled=disabled, special=special, protected=protected)
         species_ret_coefs = pd.Series([copy.deepcopy(sp.get_ret_coefs()) for sp in species], index=species.index)
         # update with the adhoc ret_coefs:
-        for sp_id in self.adhoc_species_attributes['ret_coefs'].index:
+        for sp_id in self.adhoc_species_attributes['ret_coefs'].index.intersection(species_ret_coefs.index):
             species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])
         # override for all species whose stick_coefs are 0.:
-        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special)
+        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
         for sp_id in species_stick_coefs.index:
             if species_stick_coefs.at[sp_id] == 0.:
                 species_ret_coefs.at[sp_id] = {}
-- 
2.43.0


From b53f5884cf858dcae34868ee45eb4807b13900a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:43 +0000
Subject: [PATCH 03/52] fix: load chemistry attributes with ad-hoc return
 species which are disabled

---
 plaschem/chemistry.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 1ac6a33..eead259 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -568,6 +568,14 @@ class Chemistry(object):
              'adhoc_species_attributes', 'adhoc_reactions_attributes')
         }
         try:
+            # ad-hoc attributes (set with all the species enabled, as ad-hoc return species might be disabled below):
+            self.reset()
+            self.reset_adhoc_species_attributes('all')
+            for params_list in adhoc_species_attributes:
+                self.set_adhoc_species_attributes(*params_list)
+            self.reset_adhoc_reactions_attributes('all')
+            for params_list in adhoc_reactions_attributes:
+                self.set_adhoc_reactions_attributes(*params_list)
             # masks:
             self._enabled_sp[enabled_sp_ids] = True
             self._enabled_sp[disabled_sp_ids] = False
@@ -577,13 +585,6 @@ class Chemistry(object):
             self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
             self._enabled_r[enabled_r_ids] = True
             self._enabled_r[disabled_r_ids] = False
-            # ad-hoc attributes:
-            self.reset_adhoc_species_attributes('all')
-            for params_list in adhoc_species_attributes:
-                self.set_adhoc_species_attributes(*params_list)
-            self.reset_adhoc_reactions_attributes('all')
-            for params_list in adhoc_reactions_attributes:
-                self.set_adhoc_reactions_attributes(*params_list)
 
             # assert consistency to be on a safe side:
             self.assert_consistency()
-- 
2.43.0


From 2d1f7d8613de8c6142ffd548164e381913540911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:46 +0000
Subject: [PATCH 04/52] fix: make the coherence check independent of the order
 of ad-hoc changes

---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index eead259..e977b13 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -468,7 +468,7 @@ class Chemistry(object):
 
         adhoc_species_attributes = []
         for attr in self.adhoc_species_attributes:
-            for sp_i in self.adhoc_species_attributes[attr].index:
+            for sp_i in sorted(self.adhoc_species_attributes[attr].index):
                 attr_value = self.adhoc_species_attributes[attr].at[sp_i]
                 # need to explicitly convert the value into the correct datatype (numpy data-types play up in yaml)
                 attr_value = RP.allowed_attribute_types[attr][0](attr_value)  # using RP.allowed_types lists
@@ -476,7 +476,7 @@ class Chemistry(object):
 
         adhoc_reactions_attributes = []
         for attr in self.adhoc_reactions_attributes:
-            for r_i in self.adhoc_reactions_attributes[attr].index:
+            for r_i in sorted(self.adhoc_reactions_attributes[attr].index):
                 attr_value = self.adhoc_reactions_attributes[attr].at[r_i]
                 attr_value = Reaction.allowed_attribute_types[attr][0](attr_value)
                 adhoc_reactions_attributes.append([str(attr), int(r_i), attr_value])
-- 
2.43.0


From c3c494685adff6d08fb66af3449af0842d1946ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 05/52] fix: accept textual ad-hoc numeric values, as declared
 by the allowed attribute types

---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index e977b13..d23be63 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -371,7 +371,7 @@ class Chemistry(object):
         if type(value) not in RP.allowed_attribute_types[attrib]:
             raise RPAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
         # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
+        if type(value) in (np.float64, str):  # numeric values might be passed as str, same as to the RP
             value = float(value)
         if attrib == 'ret_coefs':
             # verify the consistency of the chemistry with new return species
@@ -423,7 +423,7 @@ class Chemistry(object):
         if type(value) not in Reaction.allowed_attribute_types[attrib]:
             raise ReactionAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
         # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
+        if type(value) in (np.float64, str):  # numeric values might be passed as str, same as to the Reaction
             value = float(value)
         self.adhoc_reactions_attributes[attrib].at[r_id] = value
 
-- 
2.43.0


From dc1ecf85378a16edfb9e98b3be80f563046a9544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 06/52] fix: build the return matrix with special species and
 with return species outside the selection

---
 plaschem/chemistry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index d23be63..f1860cc 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -872,12 +872,14 @@ class Chemistry(object):
                 for return_sp_name in ret_coefs:
                     return_sp_id = self.get_rp(return_sp_name).id
                     ret_coef = ret_coefs[return_sp_name]
-                    ret_mat.at[return_sp_id, sp_id] = ret_coef
+                    if return_sp_id in ret_mat.index:
+                        ret_mat.at[return_sp_id, sp_id] = ret_coef
         ret_mat = ret_mat.fillna(0.)
 
         if special:  # fill in the special species values back to NaN's...
-            ret_mat.at[self._special_sp, :] = np.nan
-            ret_mat.at[:, self._special_sp] = np.nan
+            special_mask = self._special_sp[ret_mat.index]
+            ret_mat.loc[special_mask, :] = np.nan
+            ret_mat.loc[:, special_mask] = np.nan
 
         return ret_mat
 
-- 
2.43.0


From bd5d0f0a1727753b18682974fe87bb3294699819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 07/52] fix: parse reactions of species with more states, whose
 names contain commas

---
 plaschem/xml_inputs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 2127c61..1b45b5c 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -737,8 +737,10 @@ class XmlParser(object):
 
             attributes = {element.tag: element.text for element in list(reaction_xml) if element.tag not in skip_tags}
             # deal with the skipped tags:
-            reactants_names = [sp_name.strip() for sp_name in reaction_xml.find('reactants').text.split(',')]
-            products_names = [sp_name.strip() for sp_name in reaction_xml.find('products').text.split(',')]
+            # (commas inside of parentheses belong to the names of excited species with more states)
+            separator = r',(?![^()]*\))'
+            reactants_names = [sp_name.strip() for sp_name in re.split(separator, reaction_xml.find('reactants').text)]
+            products_names = [sp_name.strip() for sp_name in re.split(separator, reaction_xml.find('products').text)]
             reactants = [species_dict[sp_name] for sp_name in reactants_names]
             products = [species_dict[sp_name] for sp_name in products_names]
 
-- 
2.43.0


From f89fffb8113ed9a4e94e4f307ea80e1ea05cafd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 08/52] fix: leave disabled return species out of the xml of a
 reduced chemistry

---
 plaschem/xml_inputs.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 1b45b5c..eb2cb96 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -147,10 +147,12 @@ class XmlBuilder(object):
         self.species_dict[all_attributes['name']] = rp_xml
         self.species.append(rp_xml)
 
-    def add_rp_from_instance(self, rp):
+    def add_rp_from_instance(self, rp, return_species_names=None):
         """Method to create and add an rp xml element from an RP instance. The ID will be preserved.
         If an rp xml element with the same name tag text is already present, XmlError is raised.
         :param rp: (RP instance)
+        :param return_species_names: (set) names of all the species which might be returned by the rp in the resulting
+                                     xml. Any other return species (e.g. disabled ones) are left out from ret_coefs.
         :return: None
         """
         rp_attributes = {}
@@ -165,6 +167,10 @@ class XmlBuilder(object):
                 rp_units[attrib] = rp.get_unit(attrib)  # this will save even default units explicitly!
             except RPAttributeError:
                 pass
+        if return_species_names is not None:
+            ret_coefs = rp.get_ret_coefs() or {}
+            if not set(ret_coefs).issubset(return_species_names):
+                rp_attributes['ret_coefs'] = {sp: ret_coefs[sp] for sp in ret_coefs if sp in return_species_names}
         self.add_rp_from_attributes(rp_id=rp.id, rp_attributes=rp_attributes, rp_units=rp_units)
 
     def add_rp_from_qdb(self, qdb_rp):
@@ -440,7 +446,11 @@ class XmlBuilder(object):
         """
         # store the original species order (ids)
         sp_ids = list(ch.get_species_id(special=True))
+        sp_names = set(ch.get_species_name(special=True))
         for r in ch.get_reactions():
+            for rp in r.get_reactants() + r.get_products():
+                if rp.get_name() not in self.species_dict:
+                    self.add_rp_from_instance(rp, return_species_names=sp_names)
             self.add_reaction_from_instance(r)
         # restore the species order as it was defined in the Chemistry instance:
         self.species.sort(key=lambda x: sp_ids.index(int(x.attrib['id'])))
-- 
2.43.0


From ab246cf7c5b7bae09327ccba8ab13bc75ff4cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 09/52] fix: add a chemistry to a builder which already holds
 other species

---
 plaschem/xml_inputs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index eb2cb96..e970cd7 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -447,13 +447,15 @@ class XmlBuilder(object):
         # store the original species order (ids)
         sp_ids = list(ch.get_species_id(special=True))
         sp_names = set(ch.get_species_name(special=True))
+        num_present = len(self.species)
         for r in ch.get_reactions():
             for rp in r.get_reactants() + r.get_products():
                 if rp.get_name() not in self.species_dict:
                     self.add_rp_from_instance(rp, return_species_names=sp_names)
             self.add_reaction_from_instance(r)
-        # restore the species order as it was defined in the Chemistry instance:
-        self.species.sort(key=lambda x: sp_ids.index(int(x.attrib['id'])))
+        # restore the species order as it was defined in the Chemistry instance (only for the species just added):
+        self.species[num_present:] = sorted(
+            self.species[num_present:], key=lambda x: sp_ids.index(int(x.attrib['id'])))
 
     def add_chemistry_from_xml(self, xml_path):
         """Method to add all reaction and rp xml elements from a previously saved xml file. This will only add species
-- 
2.43.0


From 0c67dbe296a3a09ff6ec1e2226d739ac22bb1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 10/52] fix: forget the reaction alignments when the species
 are sorted

---
 plaschem/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 783140a..6d67656 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -217,6 +217,8 @@ class ReactionClassifier(object):
         # reset dependencies:
         self._classified_reactions = OrderedDict()
         self._memo_species_index = dict()
+        self._memo_reactions_sorted_species_names = dict()
+        self._alignments = dict()
 
     def _species_index(self, sp):
         """This is just getting index of a species inside the self.species list. Only here to optimise the lookup
-- 
2.43.0


From 6b5c5b6c08d83a7ef5475c5bd6960fd72b05f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 11/52] fix: classify collisions of like charged ions, of
 electrons only and collisions without a neutral product

---
 plaschem/classification.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 6d67656..ec47be4 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -300,8 +300,9 @@ class ReactionClassifier(object):
             r_category = 'unclassified electron impact collisions'
             col_partners = [sp for sp in reactants if sp.get_name() != 'e']
             heavy_products = [sp for sp in products if sp.get_name() != 'e']
-            col_partner = col_partners[0]  # used only for the case of only one collision partner
-            if len(reactants) < 2:  # this is a screw case, will go to unclassified
+            # col_partner is used only for the case of only one collision partner:
+            col_partner = col_partners[0] if len(col_partners) else None
+            if len(reactants) < 2 or col_partner is None:  # this is a screw case, will go to unclassified
                 pass
             elif len(reactants) > 3:  # this will lend in unclassified as well
                 pass
@@ -415,12 +416,12 @@ class ReactionClassifier(object):
                     ):
                         r_category = 'interchange'
 
-            elif ((charges_r > 0) + (charges_r == 0)).all():
+            elif (charges_r > 0).any() and (charges_r == 0).any():
                 r_type = 'POSITIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified positive ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r > 0)[0][0]]
                 r_neutral = reactants[np.where(charges_r == 0)[0][0]]
-                if len(products) == len(reactants):
+                if len(products) == len(reactants) and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p > 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('+') == p_neutral.get_name() and \
@@ -433,7 +434,7 @@ class ReactionClassifier(object):
                     if r_neutral.get_name() + '+' in [sp.get_name() for sp in products]:
                         r_category = 'dissociative charge transfer'
 
-            elif ((charges_r < 0) + (charges_r == 0)).all():
+            elif (charges_r < 0).any() and (charges_r == 0).any():
                 r_type = 'NEGATIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified negative ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r < 0)[0][0]]
@@ -443,7 +444,7 @@ class ReactionClassifier(object):
                         r_category = 'detachment'
                     elif len(reactants) > len(products) - el_stoich_coef:
                         r_category = 'associative detachment'
-                elif len(products) == len(reactants):
+                elif len(products) == len(reactants) and (charges_p == 0).any():
                     p_ion = products[np.where(charges_p < 0)[0][0]]
                     p_neutral = products[np.where(charges_p == 0)[0][0]]
                     if r_ion.get_name().strip('-') == p_neutral.get_name() and \
-- 
2.43.0


From 1641a6e2690d0b9730abb88db66aaec79dfa0f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 12/52] fix: keep the values of model parameters out of reach
 of the caller

---
 pygmo_fwork/pygmol/model_parameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 7b5a0fa..b9e8dd9 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -102,7 +102,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(power, number_type='non-negative')
         if self._time_array is not None and len(self._time_array) != len(power_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._power_array = power_array
+        self._power_array = list(power_array)  # a copy, which the caller cannot change
 
     def get_power(self):
         """Returns the power values.
@@ -125,7 +125,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(time, number_type='any')
         if self._power_array is not None and len(self._power_array) != len(time_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._time_array = time_array
+        self._time_array = list(time_array)  # a copy, which the caller cannot change
 
     def get_time(self):
         """Returns the time values corresponding to the power values.
@@ -302,7 +302,7 @@ class ModelParameters(_ModelParametersBase):
         return self.parameters.keys()
 
     def values(self):
-        return self.parameters.values()
+        return {key: self[key] for key in self.parameters}.values()
 
     def items(self):
-        return self.parameters.items()
+        return {key: self[key] for key in self.parameters}.items()
-- 
2.43.0


From b478eb2f7ab003928680435b089c64f4b837a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 13/52] fix: evaluate the wall fluxes and diagnostics of the
 neutral model

---
 pygmo_fwork/pygmol/neutral_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index 3a64024..c70cd80 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -51,10 +51,10 @@ class NeutralEquations(Equations):
 
     # redefine functions which are built into the secondary solution:
     def get_electron_temperature(self, y, n_e=None, rho=None):
-        return np.nan
+        return np.float64(np.nan)
 
     def get_electron_density(self, y, n=None):
-        return 0.
+        return np.float64(0.)
 
     # redefine necessary methods without electrons and ions, only to speed it up...
     def get_reaction_rate_coefficients(self, y, temp_e=None):
@@ -67,8 +67,13 @@ class NeutralEquations(Equations):
         return self.sigma_sc
 
     def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
+        if diff_c_free is None:
+            diff_c_free = self.get_free_diffusivities(y)
         return diff_c_free
 
+    def get_drho_dt(self, t, y, *args, **kwargs):
+        return np.float64(0.)
+
     # redefine the objective function factory, so it does not calculate unnecessary clutter
     def get_objective_functions(self, jacobian=False):
         if jacobian:
-- 
2.43.0


From 1338aca317d9712ff8c0dfe812a045a724ad9b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 14/52] fix: let the ambipolar diffusivity of negative ions be
 diagnosed

---
 pygmo_fwork/pygmol/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 039aa75..be93cac 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -631,7 +631,7 @@ class Equations(object):
         # Global_Kin apparently calculates this as D^-_free * exp(-V_sh/(k*T_i)), though this is perhaps not needed,
         # since the factor will be about 1e-100 for 300K and about 1e-10 for 3000K
         _ = y  # this is not used here currently
-        diff_a_neg = 0  # so far not really counting this, zero should be valid for alpha << mu_e/mu_i
+        diff_a_neg = np.float64(0.)  # so far not really counting this, zero should be valid for alpha << mu_e/mu_i
         return diff_a_neg
 
     def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
-- 
2.43.0


From b44e9f0463f96a9bcefe181a990cbb3f202bcf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 15/52] fix: smear the power steps also for times given as
 integers

---
 pygmo_fwork/pygmol/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index be93cac..37c4eee 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -188,7 +188,7 @@ class Equations(object):
         self.t_end = model_params['t_end']
 
         self.pow = np.array(model_params['power'])
-        self.t_pow = np.array(model_params['t_power'])
+        self.t_pow = np.array(model_params['t_power'], dtype=float)  # floats, so they can be adjusted below
 
         # adjust repeated values in P_t, since P_t needs to be strictly ascending - need to make it continuous func
         d_t = 0.00001 * self.t_end
-- 
2.43.0


From a3f626f1a475ab5df3aae11302eaa2e966e57b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 16/52] fix: leave the global model usable if the reloaded
 model parameters are refused

---
 pygmo_fwork/global_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 168c762..59795cf 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -75,7 +75,11 @@ class GlobalModel(object):
         :param model_parameters:
         :return: None
         """
-        self.__init__(chemistry=self.model.chemistry, model_parameters=model_parameters, backend=self.backend)
+        # if the new parameters are refused, the instance stays as it was
+        reloaded = type(self)(
+            chemistry=self.model.chemistry, model_parameters=model_parameters, backend=self.backend
+        )
+        self.__dict__.update(reloaded.__dict__)
 
     # noinspection DuplicatedCode
     def generate_initial_n(self, ionisation_degree=1.e-15, neg_ion_fraction=1.e-15, non_feed_sp_fraction=1.e-15):
-- 
2.43.0


From 3463a027e4689da0bb0e560efad7bf5bcfd4753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 17/52] fix: label the diagnosed rates by reactions and fluxes
 by species whatever their numbers are

---
 pygmo_fwork/pygmol/equations.py |  1 +
 pygmo_fwork/pygmol/model.py     | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 37c4eee..3bafadc 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -166,6 +166,7 @@ class Equations(object):
         self.reactions_arrh_c = np.array(chemistry.get_reactions_arrh_c())  # arrhenius activation en [eV] or [K]
         self.reactions_el_en_loss = np.array(chemistry.get_reactions_el_en_loss())  # [eV] for inelastic collisions
         self.num_reactions = len(self.reactions_arrh_a)
+        self.reactions_id = np.array(chemistry.get_reactions_id())
 
         self.stoichiovector_electron_net = np.array(chemistry.get_reactions_stoich_coefs_electron(method='net'))
         self.stoichiovector_electron_lhs = np.array(chemistry.get_reactions_stoich_coefs_electron(method='lhs'))
diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 35d76ef..40e0da4 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -40,6 +40,14 @@ class Model(object):
         'num_reactions'
     )
 
+    # quantities (partial results of the Equations class), which are vectors of values for all reactions/all species:
+    reactions_quantities = ('reaction_rate_coefficients', 'reaction_rates', 'el_en_losses')
+    species_quantities = (
+        'density_vector', 'volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'mean_free_paths',
+        'free_diffusivities', 'diffusivities', 'wall_fluxes', 'diffusion_sinks', 'diffusion_sources',
+        'diffusion_source_rates', 'min_n_correction', 'dn_dt'
+    )
+
     def __init__(self, chemistry, model_params):
         """Initialiser of the GlobalModel class. The model solves equations for density balance for Ns species
         and electron temperature balance. A Chemistry class instance needs to be passed as chemistry, defining
@@ -244,12 +252,11 @@ class Model(object):
         if sol_primary is None:
             sol_primary = self.sol_primary
         diagnostics = pd.DataFrame([getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary])
-        if diagnostics.shape[1] == self.equations.num_species:  # a value for each species
-            diagnostics.columns = list(self.chemistry.get_species_name())
-        elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
-            diagnostics.columns = list(self.chemistry.get_reactions_id())
-        elif diagnostics.shape[1] == self.equations.num_species + 1:  # a value for each component of the y vector
-            diagnostics.columns = list(self.chemistry.get_species_name()) + ['rho']
+        # the equations hold the names and ids as they were when the equations were built (chemistry might have changed)
+        if quantity in self.reactions_quantities:  # a value for each reaction
+            diagnostics.columns = list(self.equations.reactions_id)
+        elif quantity in self.species_quantities:  # a value for each species
+            diagnostics.columns = list(self.equations.species_name)
         else:  # one value for the whole system
             diagnostics.columns = ['value']
         # add the totals column:
-- 
2.43.0


From 6b47dd4c1bcaaec59349f3e291bab59790966429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 18/52] fix: forget the results of an earlier run of the model
 when a new run is started

---
 pygmo_fwork/pygmol/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 40e0da4..9a457c4 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -283,6 +283,8 @@ class Model(object):
                        in the self.chemistry. All values in [SI]. If not passed, these are built internally.
         :return: (pd.Series) of the final values indexed by species names and parameters names...
         """
+        # forget the results of any previous run, so they are not mistaken for the results of this one, if it fails
+        self.sol_raw, self.t, self.sol_primary, self.sol_secondary = None, None, None, None
         y0 = self._y0_from_init_params(init_el_temp, init_n)
         self._solve(y0=y0)
         if not self.success():
@@ -292,7 +294,7 @@ class Model(object):
         """Method to get a success of the solution. True, if solver finished successfully, False if not.
         :return: (bool)
         """
-        return bool(self.sol_raw.success)
+        return self.sol_raw is not None and bool(self.sol_raw.success)
 
     def get_solution(self):
         """Returns a pd.DataFrame holding the time-dependent solution of the model. The DataFrame has columns
-- 
2.43.0


From 95d72a1a63e68dff9cd847609b68807e98b66848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 19/52] fix: keep numpy numbers out of the logged parameters,
 so the run logs can be read back

---
 pygmo_fwork/global_model.py            |  5 ++++-
 pygmo_fwork/pygmol/model_parameters.py | 15 ++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index 59795cf..d56f64e 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -210,7 +210,10 @@ class GlobalModel(object):
             print()
 
         if log_results and self.success():
-            init_params = {'init_el_temp': init_el_temp, 'init_n': init_n}
+            # np types cause problems with yaml dumps
+            init_params = {
+                'init_el_temp': float(init_el_temp), 'init_n': {str(sp): float(n) for sp, n in init_n.items()}
+            }
             self.log_results(
                 run_id=run_id, results_dir=log_to, init_params=init_params, overwrite=overwrite, compress=compress_logs
             )
diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index b9e8dd9..5bef18e 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -34,6 +34,11 @@ class TypeCheck(object):
         else:
             raise ValueError('This should never happen!')
 
+    @staticmethod
+    def plain_number(item):
+        # numpy numbers cause problems with yaml dumps
+        return item.item() if isinstance(item, np.generic) else item
+
     @staticmethod
     def assert_is_string(item):
         if not isinstance(item, str):
@@ -70,12 +75,12 @@ class _ModelParametersFeeds(dict, TypeCheck):
         for key, value in d.items():
             self.assert_is_string(key)
             self.assert_is_number(value)
-        super().__init__(d)
+        super().__init__({key: self.plain_number(value) for key, value in d.items()})
 
     def __setitem__(self, key, value):
         self.assert_is_string(key)
         self.assert_is_number(value)
-        super().__setitem__(key, value)
+        super().__setitem__(key, self.plain_number(value))
 
 
 class _ModelParametersPower(TypeCheck):
@@ -102,7 +107,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(power, number_type='non-negative')
         if self._time_array is not None and len(self._time_array) != len(power_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._power_array = list(power_array)  # a copy, which the caller cannot change
+        self._power_array = [self.plain_number(power) for power in power_array]  # a copy, which the caller cannot change
 
     def get_power(self):
         """Returns the power values.
@@ -125,7 +130,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(time, number_type='any')
         if self._power_array is not None and len(self._power_array) != len(time_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._time_array = list(time_array)  # a copy, which the caller cannot change
+        self._time_array = [self.plain_number(time) for time in time_array]  # a copy, which the caller cannot change
 
     def get_time(self):
         """Returns the time values corresponding to the power values.
@@ -249,7 +254,7 @@ class ModelParameters(_ModelParametersBase):
             if nom_key in {'radius', 'length', 'pressure', 'temp_gas', 't_end'}:
                 # for the number-like parameters, set check type and set values straight away...
                 self.assert_is_number(value)
-                self.parameters[nom_key] = value
+                self.parameters[nom_key] = self.plain_number(value)
             elif nom_key == 'power':
                 # for the power parameters, validate them by in a custom class
                 self.assert_is_collection(value)
-- 
2.43.0


From 731ef092bfc93595ab318fe0ecb22cf0b366503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 20/52] fix: refuse a run_id which stands for the whole results
 directory, instead of removing all the logs

---
 pygmo_fwork/global_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index d56f64e..d4336e1 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -251,6 +251,9 @@ class GlobalModel(object):
         if not os.path.isdir(results_dir):
             raise GlobalModelLogError('Invalid or non existing results_dir!')
         run_results_dir = os.path.join(results_dir, run_id)
+        # never remove the results_dir with the logs of all the other runs, e.g. with the empty run_id
+        if (os.path.realpath(results_dir) + os.sep).startswith(os.path.realpath(run_results_dir) + os.sep):
+            raise GlobalModelLogError('Invalid run_id "{}"!'.format(run_id))
         if os.path.isdir(run_results_dir):
             if overwrite:
                 shutil.rmtree(run_results_dir)
-- 
2.43.0


From f0bcfd1597058df753b667fdf69920ff2ec1c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 21/52] fix: pretty-print annotated arrays with pandas 2

---
 plaschem/pretty_print.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 303e3d1..6cfc83f 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -53,7 +53,7 @@ class PrettyPrint(object):
         """
 
         # create a top level copy of the array where I'll wrap the objects in color and insert the annotations:
-        to_print = array.copy()
+        to_print = array.astype(object)
 
         # colorfy the objects (values)
         for i in to_print.index:
@@ -78,8 +78,8 @@ class PrettyPrint(object):
             columns_labels = pd.Series([ColorValue(str(a)) for a in columns_labels_objects],
                                        index=columns_labels_objects.index)
             to_print.insert(0, -1, index_labels[to_print.index])
-            columns_labels = pd.Series([ColorValue(''), ], index=[-1]).append(columns_labels)
-            to_print = pd.DataFrame(columns_labels[to_print.columns]).T.append(to_print)
+            columns_labels = pd.concat([pd.Series([ColorValue(''), ], index=[-1]), columns_labels])
+            to_print = pd.concat([pd.DataFrame(columns_labels[to_print.columns]).T, to_print])
 
         # colorcode the disabled values:
         for i in getattr(self.chemistry, 'get_disabled_{}'.format(structure['index']))().index:
-- 
2.43.0


From cf2b42b5be881fdbc528604037f1e092b432b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 22/52] fix: interpolate results frames as numbers and print
 the production processes with pandas 2

---
 pygmo_fwork/results.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f5154c3..82c4198 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -238,13 +238,13 @@ class ResultsParser(object):
             assert results_df['t'].iloc[0] <= t <= results_df['t'].iloc[-1], \
                 'time={} is outside the results_df range'.format(t)
 
-        frames = pd.DataFrame(columns=results_df.columns)
-        frames.loc[:, 't'] = times
+        frames = pd.DataFrame(index=range(len(times)), columns=results_df.columns, dtype=float)
+        frames['t'] = np.array(times)
         ignore_columns = {'t'}
         for col in results_df.columns:
             if col not in ignore_columns:
-                vals_at_times = np.interp(times, results_df['t'], results_df[col])
-                frames.loc[:, col] = vals_at_times
+                vals_at_times = np.interp(times, results_df['t'].astype(float), results_df[col].astype(float))
+                frames[col] = vals_at_times
         return frames
 
     def fetch_model_params(self, run_id, backend=None, results_dir=None, attributes_dump_name=None):
@@ -430,7 +430,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         production_rates = all_rates[all_rates > 0]
         # capping
         if n is None:
@@ -463,7 +463,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         consumption_rates = all_rates[all_rates < 0]
         # capping
         if n is None:
-- 
2.43.0


From 5f7c2669244ff55f69dc672db0f9b23f56d255c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 23/52] fix: sort the surface rates as documented and label
 them by names for any species identifier

---
 pygmo_fwork/results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 82c4198..8a956cc 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -395,7 +395,7 @@ class ResultsParser(object):
 
         # select just non-zero elements from one row belonging to the species sp:
         surface_rates = surface_rates_matrix.loc[sp_id]
-        surface_rates = surface_rates[surface_rates != 0]
+        surface_rates = surface_rates[surface_rates != 0].sort_values(ascending=False)
 
         # annotate:
         if annotate:
@@ -403,9 +403,9 @@ class ResultsParser(object):
             sp_names = chemistry.get_species_name()
             for i in surface_rates.index:
                 if i == sp_id:
-                    r_string = '{} + wall > wall'.format(sp)
+                    r_string = '{} + wall > wall'.format(sp_names[sp_id])
                 else:
-                    r_string = '{} + wall > {} + wall'.format(sp_names[i], sp)
+                    r_string = '{} + wall > {} + wall'.format(sp_names[i], sp_names[sp_id])
                 new_index.append('{: <10}{}'.format('S{}'.format(i), r_string))
             surface_rates.index = new_index
 
-- 
2.43.0


From 53e0bcbef3adea752ee579844d81e94f1bf5c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 24/52] fix: give species which do not stick no wall flux, even
 if they do not diffuse (negative ions)

---
 pygmo_fwork/pygmol/equations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 3bafadc..898ee60 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -691,13 +691,17 @@ class Equations(object):
         if v_m is None:
             v_m = self.get_mean_speeds(y)
 
-        s = self.species_stick_coef
+        # no fluxes of species which do not stick, even if they do not diffuse either (negative ions)
+        wall_fluxes = np.zeros(self.num_species)
+        i = self.species_stick_coef > 0
+        s = self.species_stick_coef[i]
         if self.diffusion_model == 0:
-            return -diff_c * n * s / self.diff_l ** 2 * self.volume / self.area
+            wall_fluxes[i] = -diff_c[i] * n[i] * s / self.diff_l ** 2 * self.volume / self.area
         elif self.diffusion_model == 1:
-            return -diff_c * n * s / (s * self.diff_l + (4 * diff_c / v_m))
+            wall_fluxes[i] = -diff_c[i] * n[i] * s / (s * self.diff_l + (4 * diff_c[i] / v_m[i]))
         else:
             raise ValueError('Unsupported diffusion model!')
+        return wall_fluxes
 
     def get_diffusion_sinks(self, y, wall_fluxes=None):
         """Method to calculate a vector of densities time derivatives contributions due to diffusion sinks to the walls
-- 
2.43.0


From 6ab0c3edb797f7f82b1c20a0d0cb6acfe2728337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:48 +0000
Subject: [PATCH 25/52] fix: measure the relative differences of negative
 values (wall fluxes) correctly when compressing

---
 pygmo_fwork/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 8a956cc..2c58257 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -506,7 +506,7 @@ class ResultsParser(object):
                 if next_index >= len(full_sol.index) - 1:
                     break
                 diff = abs(full_sol.loc[next_index] - full_sol.loc[front_index])
-                rel_diff = diff/full_sol.loc[front_index]
+                rel_diff = diff/abs(full_sol.loc[front_index])  # the values (e.g. wall fluxes) might be negative
                 if diff['t'] < min_step_abs:
                     drop_index.add(next_index)
                     next_index += 1
-- 
2.43.0


From a33c7efdcdd24abe2f8729f392a606d59a291dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:32 +0000
Subject: [PATCH 26/52] fix: build the capacity matrix of the maximum flow
 search with pandas 2

---
 pygmo_fwork/optichem/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 15bf7aa..fa8a4fc 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -240,7 +240,8 @@ class Graph(object):
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
 
         # first build the matrix of capacities and plugging zero where edges do not exist:
-        capacity = pd.DataFrame(index=self.get_nodes(), columns=self.get_nodes())
+        nodes = list(self.get_nodes())
+        capacity = pd.DataFrame(index=nodes, columns=nodes)
         for u in self.get_nodes():
             for v in self.get_nodes():
                 if self.has_edge(u, v):
-- 
2.43.0


From 7c89bc18463d3b7a03acadf9ca15c5d9e282f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:32 +0000
Subject: [PATCH 27/52] fix: keep the DRGEP couplings of species whose
 production and consumption are balanced

---
 pygmo_fwork/optichem/graph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index fa8a4fc..4dedf11 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -469,9 +469,7 @@ class ChemistryGraph(object):
             assert (tot_prod >= 0).all()
             assert (tot_cons >= 0).all()
             # build the normalisation array (N_times x N_species):
-            norm = np.zeros(tot_prod.shape)
-            norm[tot_prod > tot_cons] = tot_prod[tot_prod > tot_cons]
-            norm[tot_cons > tot_prod] = tot_cons[tot_cons > tot_prod]
+            norm = np.maximum(tot_prod, tot_cons)
             # rows are important times and columns are species
         else:
             raise NotImplementedError('Unrecognised weighting method: {}'.format(weighting_method))
-- 
2.43.0


From 5e6f91362ab6af68bf871eccc990d43da0ed610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:08 +0000
Subject: [PATCH 28/52] fix: rank uncoupled species lowest and keep important
 times which are very close apart

---
 pygmo_fwork/optichem/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 4dedf11..4103f46 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -520,7 +520,7 @@ class ChemistryGraph(object):
         for important_sp in important_species:
             for t_i, important_time in enumerate(self.important_times):
                 graph = self.graphs[t_i]
-                index = '{} ({:.3e})'.format(important_sp, important_time)
+                index = '{} ({!r})'.format(important_sp, important_time)  # unique even for very close times
                 if search_method == 'max_bottleneck':
                     paths, scores = graph.find_max_bottleneck_paths(target_node=important_sp, edge_attribute='weight')
                 elif search_method == 'shortest_path':
@@ -532,12 +532,13 @@ class ChemistryGraph(object):
                                                               inverse=lambda x: 1/np.exp(x))
                 elif search_method == 'max_flow':
                     scores = {}
-                    for sp in assessed_species:
+                    for sp in set(assessed_species) & graph.get_nodes():
                         max_flow = graph.get_max_flow(source_node=sp, target_node=important_sp, edge_attribute='weight')
                         scores[sp] = max_flow
                 else:
                     raise ValueError('Unrecognised search method: {}'.format(search_method))
-                ranking_all.loc[index, :] = scores
+                # species without any coupling are not among the nodes of the graph
+                ranking_all.loc[index, :] = {sp: scores.get(sp, 0.) for sp in assessed_species}
 
         ranking = ranking_all.max(axis=0)
         # sort values (also first sorting by keys, so order for species with the same scores is consistent)
-- 
2.43.0


From a66c9f9785707574392b10ace9a3945415535a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 29/52] fix: identical outputs which are zero at all times have
 no error (instead of NaN)

---
 pygmo_fwork/optichem/errors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/errors.py b/pygmo_fwork/optichem/errors.py
index 5d8b031..ea41f77 100644
--- a/pygmo_fwork/optichem/errors.py
+++ b/pygmo_fwork/optichem/errors.py
@@ -64,8 +64,11 @@ class SolutionsDiff(object):
         vals_full = np.array([self._get_result_in_time(self.sol_full, model_output, time) for time in times])
         # reduced model solution values of the model_output at times:
         vals_red = np.array([self._get_result_in_time(sol_red, model_output, time) for time in times])
-        # mixed relative error function:
-        deltas_output = 2*(vals_red - vals_full) / (vals_full + max(vals_full))
+        # mixed relative error function (no difference is no error, even if the full model value is zero at all times):
+        diff = vals_red - vals_full
+        deltas_output = np.zeros(len(diff))
+        mask = diff != 0
+        deltas_output[mask] = 2*diff[mask] / (vals_full + max(vals_full))[mask]
         return deltas_output
 
     def get_output_error_max(self, sol_red, model_output, times):
-- 
2.43.0


From 5833c3e8bf2dc9ad385280742a36a038b516909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 30/52] fix: the reduction meta file stays readable with a
 numpy max_error

---
 pygmo_fwork/optichem/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 09066b5..fb1c5a4 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -51,7 +51,7 @@ class ReductionIterator(object):
         self.max_error = max_error
         self.meta = {
             'important_outputs': self.important_outputs, 'important_times': self.important_times,
-            'max_error': self.max_error
+            'max_error': float(self.max_error)
         }
         if reduction_results_dir is None:
             reduction_results_dir = Config().get_reduction_results_dir()  # Parent results directory
-- 
2.43.0


From 917f3fc9e731bca101c48bd7057a21ae6b20b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 31/52] fix: write the reduction meta file also into an
 existing empty directory

---
 pygmo_fwork/optichem/reduction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index fb1c5a4..aec414f 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -110,12 +110,12 @@ class ReductionIterator(object):
             raise ReductionInitError('Results parent directory {} does not exist!'.format(self.reduction_results_dir))
         if not os.path.isdir(self.reduction_run_dir):
             os.mkdir(self.reduction_run_dir)
-            # log the meta data (important outputs and times)
-            with open(os.path.join(self.reduction_run_dir, self.meta_filename), 'w') as stream:
-                yaml.dump(self.meta, stream)
         # it's allowed that the run dir already exists, but it needs to be empty!
         elif len(os.listdir(self.reduction_run_dir)):
             raise ReductionInitError('{} already exists!'.format(self.reduction_run_dir))
+        # log the meta data (important outputs and times)
+        with open(os.path.join(self.reduction_run_dir, self.meta_filename), 'w') as stream:
+            yaml.dump(self.meta, stream)
 
     def _run_model(self, run_id: str) -> None:
         """This method simply runs the self.model instance with all the settings defined in the set of the instance
-- 
2.43.0


From c067a6151fe9c1b03e1ac04e0968f0fb6ca26dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 32/52] fix: a reduction never removes the feed gases, nor an
 important species on the back of another one

---
 pygmo_fwork/optichem/reduction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index aec414f..d89613d 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -65,8 +65,9 @@ class ReductionIterator(object):
         # keeping a ledger of species/reactions removing history
         self.all_eligible_species = \
             set(self.model.model.chemistry.get_species_name(special=False, disabled=False, protected=False))
-        # exclude the important species from eligible:
-        self.all_eligible_species = set(sp for sp in self.all_eligible_species if str(sp) not in self.important_outputs)
+        # exclude the important species and the feed gas species from eligible:
+        self.indispensable_species = set(self.important_outputs) | set(self.model.model.model_params['feeds'])
+        self.all_eligible_species = set(sp for sp in self.all_eligible_species if sp not in self.indispensable_species)
         if not len(self.all_eligible_species):
             raise ReductionInitError('The chemistry of the passed model does not have any species that can be removed!')
         self.all_species = set(self.model.model.chemistry.get_species_name())
@@ -215,6 +216,10 @@ class ReductionIterator(object):
         species_left_before_remove = set(self.model.model.chemistry.get_species_name())
         try:
             self.model.model.chemistry.disable(species=[species])
+            species_disabled = species_left_before_remove - set(self.model.model.chemistry.get_species_name())
+            if species_disabled & self.indispensable_species:  # removed implicitly on the back of species
+                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
+                raise ChemistryDisableError('Important and feed gas species cannot be removed!')
             removed_successfully = True
         except ChemistryDisableError:  # species could not even be disabled... will be skipped.
             removed_successfully = False
-- 
2.43.0


From f98d0a94faeeca46b59c3b42f34df6ceeea4d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:50 +0000
Subject: [PATCH 33/52] fix: compare the model backends of morris trajectories
 regardless of the case, as everywhere else

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index f67c08b..7670c98 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -407,7 +407,7 @@ class MorrisMethod(object):
                 if not meta_meta['trajectory_type'] == traj_type:
                     raise MorrisCoherenceError(
                         'Trajectory type is not coherent with previous morris trajectories for this Morris Run ID')
-                if not meta_meta['model_backend'] == self.model_backend:
+                if not meta_meta['model_backend'] == self.model_backend.lower():
                     raise MorrisCoherenceError(
                         'Model backend is not coherent with previous morris trajectories for this Morris Run ID')
 
-- 
2.43.0


From 7c5bb116125ba846eeba6ed3142f3bd674e3fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:50 +0000
Subject: [PATCH 34/52] fix: a morris trajectory can be run again after it
 failed

---
 pygmo_fwork/optichem/morris.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index 7670c98..c34f236 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -2,6 +2,7 @@
 import glob
 import multiprocessing
 import os
+import shutil
 import time
 from collections import namedtuple
 from numbers import Number
@@ -441,6 +442,8 @@ class MorrisMethod(object):
         :return: None
         """
         run_dir = os.path.join(logs_traj_dir, run_id)
+        if os.path.isdir(run_dir):  # leftover from an unfinished trajectory
+            shutil.rmtree(run_dir)
         os.mkdir(run_dir)
         if compress:
             solution = ResultsParser.compress_solution(solution, diff_threshold=0.05, min_timestep=0.001)
@@ -626,7 +629,7 @@ class MorrisMethod(object):
         run_id = '{:0{}d}_initial_run'.format(0, len(str(factors_dimension)))
         model.run(
             verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
-            run_id=run_id
+            run_id=run_id, overwrite=True  # overwrites leftovers from an unfinished trajectory
         )
         if not full_log:
             self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
@@ -688,7 +691,7 @@ class MorrisMethod(object):
             run_id = '{:0{}d}_elem_effect_of_{}'.format(j+1, len(str(factors_dimension)), factor_id)
             model.run(
                 verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
-                run_id=run_id
+                run_id=run_id, overwrite=True  # overwrites leftovers from an unfinished trajectory
             )
             if not full_log:
                 self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
-- 
2.43.0


From 43645983b96a2127ae61c15b52957a11a7023ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:50 +0000
Subject: [PATCH 35/52] fix: morris statistics ignore the unfinished
 trajectories

---
 pygmo_fwork/optichem/morris.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index c34f236..f0c35d1 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -879,8 +879,10 @@ class MorrisMethod(object):
 
         # full paths to all the trajectory directories (the ones containing run logs for all the trajectory runs)
         traj_dirs_paths = list(
-            glob.glob(os.path.join(logs_dir, '*'))
+            glob.glob(os.path.join(glob.escape(str(logs_dir)), '*'))
         )
+        # only the finished ones
+        traj_dirs_paths = [path for path in traj_dirs_paths if os.path.isfile(os.path.join(path, 'meta.yaml'))]
         traj_dirs_paths.sort()
 
         trajectories_stats = []  # the TrajectoryStats object for each of the found trajectories
-- 
2.43.0


From a5cc33a6822d442b81632115c8475b8e68998d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:50 +0000
Subject: [PATCH 36/52] fix: a failed model run fails also the fully logged
 morris trajectory

---
 pygmo_fwork/optichem/morris.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index f0c35d1..c2bff8e 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -631,6 +631,7 @@ class MorrisMethod(object):
             verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
             run_id=run_id, overwrite=True  # overwrites leftovers from an unfinished trajectory
         )
+        model.assert_success()
         if not full_log:
             self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
 
@@ -693,6 +694,7 @@ class MorrisMethod(object):
                 verbose=verbosity >= 3, log_results=full_log, log_to=self.logs_traj_dir,
                 run_id=run_id, overwrite=True  # overwrites leftovers from an unfinished trajectory
             )
+            model.assert_success()
             if not full_log:
                 self._log_solution(model.get_solution(), run_id, self.logs_traj_dir, compress=compress_solution)
 
-- 
2.43.0


From 5fb484167467f8c06317cf1b698054807522df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:50 +0000
Subject: [PATCH 37/52] fix: morris trajectories in an explicit directory are
 evaluated without the config file

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index c2bff8e..d1fba9f 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -809,7 +809,7 @@ class MorrisMethod(object):
                  mean_outputs: tuple of pd.Series with model outputs as index. These are mean model outputs across all
                                the model evaluations for this morris trajectory.
         """
-        rp = ResultsParser()
+        rp = ResultsParser(nominal_results_dir=traj_dir)
         with open(os.path.join(traj_dir, 'meta.yaml')) as stream:
             meta_dict = yaml.load(stream, Loader=yaml.FullLoader)  # extract run_ids and deltas for all the runs
         base_run_id = meta_dict['base_run_id']
-- 
2.43.0


From e9b51d19925a533c22cb620c9623e00df39d4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:16 +0000
Subject: [PATCH 38/52] fix: sensitivity analysis meta files are replaced
 atomically

---
 pygmo_fwork/optichem/morris.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index d1fba9f..acad07b 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -4,6 +4,7 @@ import multiprocessing
 import os
 import shutil
 import time
+import uuid
 from collections import namedtuple
 from numbers import Number
 from typing import Union, Sequence, Tuple, Dict
@@ -394,7 +395,7 @@ class MorrisMethod(object):
                           'model_parameters' each for one supported (coded) Morris Run types
         :return: None
         """
-        if len(os.listdir(meta_dir)):
+        if os.path.isfile(os.path.join(meta_dir, 'meta.yaml')):  # dumped as the last one of the meta files
             if not self.chemistry.check_coherence(os.path.join(meta_dir, 'chemistry_attributes.yaml')):
                 raise MorrisCoherenceError(
                     'Chemistry is not coherent with previous morris trajectories for this Morris Run ID')
@@ -423,14 +424,30 @@ class MorrisMethod(object):
         :param traj_type: (str) 'reactions', 'species', 'return_coefficients' or 'model_parameters'
         :return: None
         """
-        self.chemistry.dump_chemistry_attributes(os.path.join(meta_dir, 'chemistry_attributes.yaml'))
+        # the files are always replaced as a whole, as they can be read by trajectories running in parallel
+        chemistry_path = os.path.join(meta_dir, 'chemistry_attributes.yaml')
+        temp_path = '{}.{}.tmp'.format(chemistry_path, uuid.uuid4().hex)
+        self.chemistry.dump_chemistry_attributes(temp_path)
+        os.replace(temp_path, chemistry_path)
 
         model_params = dict(ModelParameters(self.model_params))  # this cleans up the dict, so ready for yaml dump
-        with open(os.path.join(meta_dir, 'model_parameters.yaml'), 'w') as stream:
-            yaml.dump(model_params, stream)
+        self._dump_yaml(model_params, os.path.join(meta_dir, 'model_parameters.yaml'))
 
-        with open(os.path.join(meta_dir, 'meta.yaml'), 'w') as stream:
-            yaml.dump({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()}, stream)
+        # this one goes last: its existence means that all the meta files are there, see self._assert_coherence
+        self._dump_yaml({'trajectory_type': traj_type, 'model_backend': self.model_backend.lower()},
+                        os.path.join(meta_dir, 'meta.yaml'))
+
+    @staticmethod
+    def _dump_yaml(data, path):
+        """Dumps the data into a yaml file, which either appears (or is replaced) complete, or not at all.
+        :param data: (dict)
+        :param path: (str)
+        :return: None
+        """
+        temp_path = '{}.{}.tmp'.format(path, uuid.uuid4().hex)
+        with open(temp_path, 'w') as stream:
+            yaml.dump(data, stream)
+        os.replace(temp_path, path)
 
     @staticmethod
     def _log_solution(solution, run_id, logs_traj_dir, compress):
@@ -709,8 +726,7 @@ class MorrisMethod(object):
         meta_dict['run_ids'] = traj_run_ids
         meta_dict['deltas'] = traj_deltas
         meta_dict['factors_ids'] = traj_factors_ids
-        with open(os.path.join(self.logs_traj_dir, 'meta.yaml'), 'w') as stream:
-            yaml.dump(meta_dict, stream)
+        self._dump_yaml(meta_dict, os.path.join(self.logs_traj_dir, 'meta.yaml'))
         # dump the morris run meta data:
         self._dump_meta(self.meta_dir, traj_type=traj_type)
 
-- 
2.43.0


From 19eef57d99805d03c6a084ba0f5d25135e6ce52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:16 +0000
Subject: [PATCH 39/52] fix: a trajectory is marked finished only after the
 meta data of the analysis are logged

---
 pygmo_fwork/optichem/morris.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index acad07b..d16c321 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -722,13 +722,14 @@ class MorrisMethod(object):
                 logged_factor_id = int(logged_factor_id)  # assumes that it's either non-numeric str (name) or int (id)
             traj_factors_ids.append(logged_factor_id)
 
-        # dump the trajectory meta data:
+        # the trajectory meta data:
         meta_dict['run_ids'] = traj_run_ids
         meta_dict['deltas'] = traj_deltas
         meta_dict['factors_ids'] = traj_factors_ids
-        self._dump_yaml(meta_dict, os.path.join(self.logs_traj_dir, 'meta.yaml'))
         # dump the morris run meta data:
         self._dump_meta(self.meta_dir, traj_type=traj_type)
+        # dump the trajectory meta data - as the last thing, because this marks the trajectory as finished:
+        self._dump_yaml(meta_dict, os.path.join(self.logs_traj_dir, 'meta.yaml'))
 
         if verbosity >= 1:
             msg = ' MORRIS RUN "{}": TRAJECTORY "{}" FINISHED'.format(
-- 
2.43.0


From ab2e6148c04dd7aaa0e58d6bc1b8dc096f8677ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:16 +0000
Subject: [PATCH 40/52] fix: failed trajectories of a parallel sensitivity
 analysis are not silently lost

---
 pygmo_fwork/optichem/morris.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index d16c321..0c4a8fe 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -804,12 +804,16 @@ class MorrisMethod(object):
             num_cores = multiprocessing.cpu_count() - 1
         pool = multiprocessing.Pool(num_cores)  # pool of workers, by default using all but one PC's CPUs
 
+        async_results = []
         for kwds in kwds_q:  # run all the trajectories in the pool.
-            pool.apply_async(self.run_trajectory, args=(morris_run_id, traj_type), kwds=kwds)
+            async_results.append(pool.apply_async(self.run_trajectory, args=(morris_run_id, traj_type), kwds=kwds))
 
         pool.close()
         pool.join()
 
+        for async_result in async_results:  # raises the error, if any of the trajectories failed
+            async_result.get()
+
     # ********************************* POST-PROCESSING TRAJECTORIES ************************************************* #
 
     @staticmethod
-- 
2.43.0


From 7756fd3239ad90bdf1e1b86a21c602af675e5fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:58 +0000
Subject: [PATCH 41/52] fix: trailing zeros of whole numbers are not lost in
 typeset tables

---
 plaschem/latex.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/plaschem/latex.py b/plaschem/latex.py
index c9a2961..dc6173c 100644
--- a/plaschem/latex.py
+++ b/plaschem/latex.py
@@ -96,6 +96,16 @@ class Texify:
 
         raise AssertionError('TeXify error!')
 
+    @staticmethod
+    def texify_number(value):
+        """Returns the string of the number rounded to two decimal places, without any trailing zeros behind the
+        decimal point.
+        :param value: (float or str)
+        :return: (str)
+        """
+        number = '{:.2f}'.format(float(value)).rstrip('0').rstrip('.')
+        return '0' if number == '-0' else number
+
     @staticmethod
     def texify_rate_coefficient(reaction, si_units=True, fractype='/'):
         """Returns the LaTeX equation of the Arrhenius formula with the Reaction kinetic data.
@@ -106,7 +116,7 @@ class Texify:
         # pre-exponential factor:
         a_exp = '{:.2E}'.format(reaction.get_arrh_a(si_units=si_units))
         a, exp = a_exp.split('E')
-        a = a.rstrip('.0')
+        a = Texify.texify_number(a)
         if int(exp) != 0:
             tex_a = r'{} \times 10^{{{}}}'.format(a, int(exp))
         else:
@@ -116,7 +126,7 @@ class Texify:
         if reaction.get_arrh_b() == 0:
             tex_b = ''
         else:
-            exp = str(round(reaction.get_arrh_b(), 2)).rstrip('.0')
+            exp = Texify.texify_number(reaction.get_arrh_b())
             if reaction.is_electron_process():
                 tex_b = r' T_\mathrm{{e}}^{{{}}}'.format(exp)
             else:
@@ -129,7 +139,7 @@ class Texify:
         if reaction.get_arrh_c() == 0:
             tex_c = ''
         else:
-            act_en = str(round(abs(reaction.get_arrh_c()), 2)).rstrip('.0')
+            act_en = Texify.texify_number(abs(reaction.get_arrh_c()))
             sign = '-' if reaction.get_arrh_c() > 0 else ''
             if reaction.is_electron_process():
                 if fractype == 'dfrac':
@@ -358,7 +368,7 @@ class ReactionsTable(TexTable):
                 )
             elif col == r'$\Delta E_\mathrm{e}$':
                 df[col] = pd.Series(
-                    [str(round(r.get_el_en_loss(), 2)).rstrip('.0') if r.get_el_en_loss() != 0 else ''
+                    [Texify.texify_number(r.get_el_en_loss()) if r.get_el_en_loss() != 0 else ''
                      for r in self.reactions],
                     index=self.reactions.index
                 )
-- 
2.43.0


From 1bd8884fbd407ab8bcfdd7f190e29df6cc83947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:58 +0000
Subject: [PATCH 42/52] fix: species with the same LaTeX representation are not
 merged in a reaction

---
 plaschem/reactions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/plaschem/reactions.py b/plaschem/reactions.py
index 953d321..4ed6e02 100644
--- a/plaschem/reactions.py
+++ b/plaschem/reactions.py
@@ -618,19 +618,19 @@ class Reaction(object):
         if latex is not None:
             latex = str(latex)
         else:
-            species_dicts = [OrderedDict(), OrderedDict()]
-            for sp_dict, id_stoich in zip(species_dicts, (self.get_stoich_coefs('lhs'), self.get_stoich_coefs('rhs'))):
+            species_lists = [[], []]
+            for sp_list, id_stoich in zip(species_lists, (self.get_stoich_coefs('lhs'), self.get_stoich_coefs('rhs'))):
                 for sp_id in id_stoich:
                     sp_latex = self.get_rp(sp_id).get_latex()
                     if id_stoich[sp_id] == 1:
-                        sp_dict[sp_latex] = ''
+                        sp_list.append((sp_latex, ''))
                     elif id_stoich[sp_id] > 1:
-                        sp_dict[sp_latex] = '{} '.format(id_stoich[sp_id])
-            # now species_dicts is list with two dicts for reactants and products, where each dict is keyed by
-            # latex repr of species and value is string of the stoich coefficient (or empty string if it's 1)
+                        sp_list.append((sp_latex, '{} '.format(id_stoich[sp_id])))
+            # now species_lists is list with two lists for reactants and products, where each item is a pair of
+            # latex repr of species and string of the stoich coefficient (or empty string if it's 1)
             sides = [
-                ' + '.join(['{}{}'.format(stoich, sp_latex) for sp_latex, stoich in species_dict.items()])
-                for species_dict in species_dicts
+                ' + '.join(['{}{}'.format(stoich, sp_latex) for sp_latex, stoich in species_list])
+                for species_list in species_lists
             ]
             latex = r'{} \rightarrow {}'.format(*sides)
 
-- 
2.43.0


From 2b2bb3fd160b9fbaaa039f84554454d456bce81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:58 +0000
Subject: [PATCH 43/52] fix: all two-digit numbers of atoms are typeset as
 subscripts

---
 plaschem/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/latex.py b/plaschem/latex.py
index dc6173c..9d66073 100644
--- a/plaschem/latex.py
+++ b/plaschem/latex.py
@@ -38,7 +38,7 @@ class Texify:
                 of = of.replace('{}{}'.format(end, s), '{}^{}'.format(end, s))
         # numbers behind elements are subscribed
         for a in Texify.element_symbols:
-            for n in range(10, 20):
+            for n in range(10, 100):
                 of = of.replace('{}{}'.format(a, n), '{}_{{{}}}'.format(a, n))
             for n in range(1, 10):
                 of = of.replace('{}{}'.format(a, n), '{}_{}'.format(a, n))
-- 
2.43.0


From ad18603a283a3da9ab3c7b73fffd75257df2e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:24 +0000
Subject: [PATCH 44/52] fix: config file which is not a valid yaml raises
 ConfigError

---
 pygmo_fwork/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/config.py b/pygmo_fwork/config.py
index 88ca43c..7283d16 100644
--- a/pygmo_fwork/config.py
+++ b/pygmo_fwork/config.py
@@ -31,7 +31,7 @@ class Config(dict):
         with open(config_file_path, 'r') as stream:
             try:  # try yaml loading the config into a dict
                 config_dict = dict(yaml.load(stream, yaml.FullLoader))
-            except (TypeError, ValueError) as _:
+            except (TypeError, ValueError, yaml.YAMLError) as _:
                 raise ConfigError('Failed to parse the config file! Needs to follow the prescribed format & structure!')
 
         # instantiate with the parsed dictionary
-- 
2.43.0


From cd690d4851221051fe7a89a7861128eb4260c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:14 +0000
Subject: [PATCH 45/52] fix: copy of a neutral chemistry

---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index f1860cc..cac2e06 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -96,7 +96,7 @@ class Chemistry(object):
         will still be sharing species and reactions objects.
         :return: (self instance)
         """
-        self_copy = Chemistry(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
+        self_copy = type(self)(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
 
         # ENFORCE IDENTICAL STATE:
         # masks:
-- 
2.43.0


From 3ab642beaa7d8f75747972cf01c5a6cd455cec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:14 +0000
Subject: [PATCH 46/52] fix: neutral chemistry with electrons is refused

---
 pygmo_fwork/pygmol/neutral_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index c70cd80..0005c9b 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -19,7 +19,7 @@ class NeutralChemistry(Chemistry):
         """Redefinition of the base-class method. Supers the base and adds the assertion of all species being neutral"""
         # check that all species are neutral:
         species_charge = self.get_species_charge()
-        if not (species_charge.values == 0).all():
+        if 'e' in list(self.get_species_name(special=True)) or not (species_charge.values == 0).all():
             raise ChemistryConsistencyError('NeutralChemistry cannot contain charged species!')
         super().assert_consistency()
 
-- 
2.43.0


From 7269f00d1dfc4d26020eed807804ed1dc5418873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:50 +0000
Subject: [PATCH 47/52] fix: label the rows and columns of pretty-printed
 arrays by what they are

Without annotations the first id was blanked; overlapping ids of species and
reactions mixed the labels and colours up, and a species with id 0 clashed
with the row of labels.
---
 plaschem/pretty_print.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/plaschem/pretty_print.py b/plaschem/pretty_print.py
index 6cfc83f..4ae9508 100644
--- a/plaschem/pretty_print.py
+++ b/plaschem/pretty_print.py
@@ -61,12 +61,17 @@ class PrettyPrint(object):
                 to_print.at[i, c] = ColorValue(to_print.at[i, c])
 
         # determine if index or columns belong to species or reactions
+        # (the ids of species and of reactions might overlap: only the square arrays have species in both dimensions)
+        candidates = [('reactions', 'species'), ('species', 'reactions'), ('species', 'species'),
+                      ('reactions', 'reactions')]
+        if list(to_print.index) == list(to_print.columns):
+            candidates = candidates[2:] + candidates[:2]
         structure = {}
-        for keys in ['index', 'columns']:
-            for candidates in ['species', 'reactions']:
-                if set(getattr(to_print, keys)).issubset(set(getattr(self.chemistry, '_{}'.format(candidates)).index)):
-                    structure[keys] = candidates
-                    break
+        for kinds in candidates:
+            if all(set(labels).issubset(set(getattr(self.chemistry, '_{}'.format(kind)).index))
+                   for labels, kind in zip((to_print.index, to_print.columns), kinds)):
+                structure = dict(zip(('index', 'columns'), kinds))
+                break
         # model structure after the loop: {'index': 'reactions', 'columns': 'species'}
 
         if annotation:
@@ -79,7 +84,7 @@ class PrettyPrint(object):
                                        index=columns_labels_objects.index)
             to_print.insert(0, -1, index_labels[to_print.index])
             columns_labels = pd.concat([pd.Series([ColorValue(''), ], index=[-1]), columns_labels])
-            to_print = pd.concat([pd.DataFrame(columns_labels[to_print.columns]).T, to_print])
+            to_print = pd.concat([columns_labels[to_print.columns].to_frame(-1).T, to_print])
 
         # colorcode the disabled values:
         for i in getattr(self.chemistry, 'get_disabled_{}'.format(structure['index']))().index:
@@ -94,8 +99,9 @@ class PrettyPrint(object):
                     to_print.at[i, c].set_color('RED')
 
         # remove the index and columns values for the label row and column:
-        to_print.index = ['', ] + list(to_print.index)[1:]
-        to_print.columns = ['', ] + list(to_print.columns)[1:]
+        if annotation:
+            to_print.index = ['', ] + list(to_print.index)[1:]
+            to_print.columns = ['', ] + list(to_print.columns)[1:]
 
         # colorify columns. Index cannot be colorfied, since it will mess up the alignment.
         to_print.columns = [ColorValue(c) for c in to_print.columns]
-- 
2.43.0


From f83079dd19ac2b1f081b080bda322a8c070843df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:50 +0000
Subject: [PATCH 48/52] fix: do not mark elastic given as text as a default in
 the listing of reactions

---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index cac2e06..afb646f 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -1183,9 +1183,9 @@ class Chemistry(object):
                             if not equal:
                                 # if saved attribute is 'True' or 'False', need to catch it:
                                 if saved_attrib in {'True', 'true', 'TRUE'}:
-                                    equal = returned_attrib is True
+                                    equal = bool(returned_attrib)
                                 elif saved_attrib in {'False', 'false', 'FALSE'}:
-                                    equal = returned_attrib is False
+                                    equal = not returned_attrib
                                 else:  # if not boolean, it should be number...
                                     try:  # float attributes might be saved as int or str...
                                         equal = float(saved_attrib) == float(returned_attrib)
-- 
2.43.0


From ace37264660730533b76d2b9276ad1dc291b8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:50 +0000
Subject: [PATCH 49/52] fix: sort species of scandium and thallium

Their symbols were misspelled in the order of elements.
---
 plaschem/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index ec47be4..815280c 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -75,10 +75,10 @@ class ReactionClassifier(object):
 
     elements_order = [
         'H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca',
-        'SC', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
+        'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
         'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce',
         'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir',
-        'Pt', 'Au', 'Hg', 'Ti', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
+        'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
         'Bk', 'Cf', 'M'
     ]
 
-- 
2.43.0


From e9369dda9551e9e2246995f17e01cb2953e94a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:54 +0000
Subject: [PATCH 50/52] fix: an output which stays at zero is converged

---
 pygmo_fwork/global_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygmo_fwork/global_model.py b/pygmo_fwork/global_model.py
index d4336e1..857a50b 100644
--- a/pygmo_fwork/global_model.py
+++ b/pygmo_fwork/global_model.py
@@ -324,6 +324,7 @@ class GlobalModel(object):
             [np.interp(t_start, solution['t'], solution[a]) for a in solution.columns], index=solution.columns
         )
         rel_diff = (values_end - values_start) / (values_end + values_start) * 2
+        rel_diff[values_end == values_start] = 0.  # including the outputs which stay at zero
 
         outputs_to_ignore = {'t', }  # I dont care for convergency of these parameters
         rel_diff = rel_diff.drop(outputs_to_ignore)
-- 
2.43.0


From 40532db975c02c57684bb12fb1d03da04a91b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 51/52] fix: the plot of all densities includes the electron
 density

---
 pygmo_fwork/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index 2c58257..2d3f891 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -539,7 +539,7 @@ class ResultsParser(object):
         """
         sol = self.fetch_solution(run_id, backend=backend, results_dir=results_dir, file_name=file_name)
         if not len(to_plot):
-            to_plot = list(sol.columns)[1:-4]  # get rid of time and non-density parameters
+            to_plot = list(sol.columns)[1:-3]  # get rid of time and non-density parameters
         for param in to_plot:
             plt.plot(sol['t'], sol[param], label='{}'.format(param))
         plt.xlabel('Time (s)')
-- 
2.43.0


From bf7e37e7eb2c1f38df6baed70eab1ff300c46e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:43 +0000
Subject: [PATCH 52/52] fix: zeros are subscripted in the species names of the
 reductions plot

---
 pygmo_fwork/optichem/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index d89613d..f5268e5 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -428,7 +428,7 @@ def compare_reduction_runs(*reduction_runs_paths,
         name = raw_name
         for symbol in ['+', '-']:
             name = name.replace(symbol, '$^{%s}$' % symbol)
-        for num in '1 2 3 4 5 6 7 8 9'.split():
+        for num in '0 1 2 3 4 5 6 7 8 9'.split():
             name = name.replace(num, '$_{%s}$' % num)
         return name
 
-- 
2.43.0

