From 5c54385f8e0f57b5ef3eb2a35d8d149a187ccc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:31 +0000
Subject: [PATCH 01/16] fix: validate the type of
 VariantFeatureConfig.multi_value

---
 variantlib/models/provider.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/variantlib/models/provider.py b/variantlib/models/provider.py
index edc9474..a6f2478 100644
--- a/variantlib/models/provider.py
+++ b/variantlib/models/provider.py
@@ -58,7 +58,11 @@ class VariantFeatureConfig(BaseModel):
         }
     )
 
-    multi_value: bool
+    multi_value: bool = field(
+        metadata={
+            "validator": lambda val: validate_type(val, bool),
+        }
+    )
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 6709f10e8762d433804d5539547d02b1e5fcddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:05 +0000
Subject: [PATCH 02/16] fix: validate feature names in VariantConfiguration
 priorities

---
 variantlib/models/configuration.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/variantlib/models/configuration.py b/variantlib/models/configuration.py
index 8a2bc3a..f84dec3 100644
--- a/variantlib/models/configuration.py
+++ b/variantlib/models/configuration.py
@@ -5,6 +5,7 @@ from dataclasses import dataclass
 from dataclasses import field
 from typing import TYPE_CHECKING
 
+from variantlib.constants import VALIDATION_FEATURE_NAME_REGEX
 from variantlib.constants import VALIDATION_NAMESPACE_REGEX
 from variantlib.models.base import BaseModel
 from variantlib.protocols import VariantFeatureName
@@ -62,7 +63,10 @@ class VariantConfiguration(BaseModel):
                     lambda v: validate_list_matches_re(
                         v.keys(), VALIDATION_NAMESPACE_REGEX
                     ),
-                    # TODO
+                    lambda v: validate_list_matches_re(
+                        [feature for features in v.values() for feature in features],
+                        VALIDATION_FEATURE_NAME_REGEX,
+                    ),
                 ],
                 value=val,
             )
@@ -86,7 +90,10 @@ class VariantConfiguration(BaseModel):
                     lambda v: validate_list_matches_re(
                         v.keys(), VALIDATION_NAMESPACE_REGEX
                     ),
-                    # TODO
+                    lambda v: validate_list_matches_re(
+                        [feature for features in v.values() for feature in features],
+                        VALIDATION_FEATURE_NAME_REGEX,
+                    ),
                 ],
                 value=val,
             )
-- 
2.43.0


From 0bca8746320a82efd04153e9d9327ce1c1389991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:56 +0000
Subject: [PATCH 03/16] fix: do not modify the caller's list of variants in
 sort_and_filter_supported_variants

---
 variantlib/resolver/lib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index f966d22..a97e0ad 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -208,6 +208,7 @@ def sort_and_filter_supported_variants(
         namespace_priorities = []
 
     # Avoiding modification in place
+    vdescs = vdescs.copy()
     namespace_priorities = namespace_priorities.copy()
     supported_vprops = supported_vprops.copy()
 
-- 
2.43.0


From 5d581e9dca42c957b0a2d708bcfd81ee4c3f1b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:23 +0000
Subject: [PATCH 04/16] fix: ignore invalid and shadowed distributions in
 abi_dependency

An installed distribution or an environment override with an invalid name or
version made every resolution fail, and of several installed distributions of
one package the shadowed one was used.
---
 variantlib/resolver/lib.py | 52 +++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index a97e0ad..aa05365 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -121,6 +121,18 @@ def filter_variants(
     yield from result
 
 
+def _generate_abi_properties(name: str, version: str) -> list[VariantProperty]:
+    """Get the abi_dependency properties, raises ValueError for invalid input"""
+    return [
+        VariantProperty(
+            namespace=VARIANT_ABI_DEPENDENCY_NAMESPACE,
+            feature=name,
+            value=_ver,
+        )
+        for _ver in _generate_version_matches(version)
+    ]
+
+
 def inject_abi_dependency(
     supported_vprops: list[VariantProperty],
     namespace_priorities: list[VariantNamespace],
@@ -128,10 +140,20 @@ def inject_abi_dependency(
     """Inject supported vairants for the abi_dependency namespace"""
 
     # 1. Automatically populate from the current python environment
-    packages = {
-        _normalize_package_name(dist.name): dist.version
-        for dist in importlib.metadata.distributions()
-    }
+    packages: dict[str, list[VariantProperty]] = {}
+    for dist in importlib.metadata.distributions():
+        try:
+            pkg_name = _normalize_package_name(dist.name)
+            pkg_vprops = _generate_abi_properties(pkg_name, dist.version)
+        except (TypeError, ValueError):
+            logger.warning(
+                "Installed distribution `%(name)s` has an invalid name or version. "
+                "It will be ignored.",
+                {"name": dist.name},
+            )
+            continue
+        # The first distribution found is the one that gets imported.
+        packages.setdefault(pkg_name, pkg_vprops)
 
     # 2. Manually fed from environment variable
     #    Env Var Format: `VARIANT_ABI_DEPENDENCY=packageA==1.2.3,...,packageZ==7.8.9`
@@ -139,6 +161,8 @@ def inject_abi_dependency(
         for pkg_spec in variant_abi_deps_env.split(","):
             try:
                 pkg_name, pkg_version = pkg_spec.split("==", maxsplit=1)
+                pkg_name = _normalize_package_name(pkg_name)
+                pkg_vprops = _generate_abi_properties(pkg_name, pkg_version)
             except ValueError:
                 logger.warning(
                     "`VARIANT_ABI_DEPENDENCY` received an invalid value "
@@ -148,29 +172,21 @@ def inject_abi_dependency(
                 )
                 continue
 
-            pkg_name = _normalize_package_name(pkg_name)
-            if (old_version := packages.get(pkg_name)) is not None:
+            if (old_vprops := packages.get(pkg_name)) is not None:
                 logger.warning(
                     "`VARIANT_ABI_DEPENDENCY` overrides package version: "
                     "`%(pkg_name)s` from `%(old_ver)s` to `%(new_ver)s`",
                     {
                         "pkg_name": pkg_name,
-                        "old_ver": old_version,
-                        "new_ver": pkg_version,
+                        "old_ver": old_vprops[-1].value,
+                        "new_ver": pkg_vprops[-1].value,
                     },
                 )
 
-            packages[pkg_name] = pkg_version
+            packages[pkg_name] = pkg_vprops
 
-    for pkg_name, pkg_version in sorted(packages.items()):
-        supported_vprops.extend(
-            VariantProperty(
-                namespace=VARIANT_ABI_DEPENDENCY_NAMESPACE,
-                feature=pkg_name,
-                value=_ver,
-            )
-            for _ver in _generate_version_matches(pkg_version)
-        )
+    for _, pkg_vprops in sorted(packages.items()):
+        supported_vprops.extend(pkg_vprops)
 
     # 3. Adding `VARIANT_ABI_DEPENDENCY_NAMESPACE` at the back of`namespace_priorities`
     namespace_priorities.append(VARIANT_ABI_DEPENDENCY_NAMESPACE)
-- 
2.43.0


From ba7676a0aa20bf627f0e1b8f9ce69d9a9c0ebc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:13 +0000
Subject: [PATCH 05/16] fix: include the Python executable in the plugin cache
 key

---
 variantlib/plugins/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index b87987e..e122443 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -96,7 +96,7 @@ class BasePluginLoader:
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
-        cache_key = hash((_plugin_apis, _commands, _args))
+        cache_key = hash((self._python_executable, _plugin_apis, _commands, _args))
 
         with suppress(KeyError):
             return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
-- 
2.43.0


From e8e84af60aab3217f91e451a12dbe0fc9ebe2dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 06/16] fix: do not share cached plugin answers with callers

---
 variantlib/plugins/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index e122443..c4c8388 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -9,6 +9,7 @@ import sys
 from abc import abstractmethod
 from collections.abc import Collection
 from contextlib import suppress
+from copy import deepcopy
 from importlib.metadata import Distribution
 from importlib.metadata import entry_points
 from pathlib import Path
@@ -99,14 +100,15 @@ class BasePluginLoader:
         cache_key = hash((self._python_executable, _plugin_apis, _commands, _args))
 
         with suppress(KeyError):
-            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
+            # Copied, so that callers cannot change the remembered answer.
+            return deepcopy(VARIANT_PROVIDER_CACHE_TABLE[cache_key])
 
         result = self._run_call_subprocess(
             plugin_apis=_plugin_apis,
             commands=_commands,
             args=_args,
         )
-        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = result
+        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = deepcopy(result)
         return result
 
     def _run_call_subprocess(
-- 
2.43.0


From 3455750c07de3b5f4e5a45dc035c10b4b1028d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:14 +0000
Subject: [PATCH 07/16] fix: refuse ill-typed empty values in configuration
 files instead of ignoring them

---
 variantlib/models/configuration.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/variantlib/models/configuration.py b/variantlib/models/configuration.py
index f84dec3..de0d075 100644
--- a/variantlib/models/configuration.py
+++ b/variantlib/models/configuration.py
@@ -137,9 +137,15 @@ class VariantConfiguration(BaseModel):
         """
 
         return cls(
-            namespace_priorities=namespace_priorities or [],
-            feature_priorities=feature_priorities or {},
-            property_priorities=property_priorities or {},
+            namespace_priorities=(
+                namespace_priorities if namespace_priorities is not None else []
+            ),
+            feature_priorities=(
+                feature_priorities if feature_priorities is not None else {}
+            ),
+            property_priorities=(
+                property_priorities if property_priorities is not None else {}
+            ),
         )
 
     def to_dict(self) -> dict[str, Any]:
-- 
2.43.0


From cf1fc9ad8d7ece08c326d2835522dcd0fdda3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:19 +0000
Subject: [PATCH 08/16] fix: refuse contradicting variants and static
 properties before merging anything

---
 variantlib/variants_json.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 363eeb5..97c4ef5 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,14 +112,12 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
-        # Merge the variant properties
-        self.variants.update(variant_dist_info.variants)
-
-        # Verify consistency of default priorities
+        # Verify consistency of default priorities and static properties
         for attribute in (
             "namespace_priorities",
             "feature_priorities",
             "property_priorities",
+            "static_properties",
         ):
             new_value = getattr(variant_dist_info, attribute)
             old_value = getattr(self, attribute)
@@ -135,6 +133,13 @@ class VariantsJson(VariantInfo):
                 f"Before:\n{self.providers}.\n\nAfter:\n{variant_dist_info.providers}."
             )
 
+        for label, vdesc in variant_dist_info.variants.items():
+            if (old_vdesc := self.variants.get(label, vdesc)) != vdesc:
+                raise ValidationError(
+                    f"Inconsistency in variants[{label!r}] when merging variants. "
+                    f"Expected: {old_vdesc!r}, found {vdesc!r}"
+                )
+
         for namespace, provider_info in variant_dist_info.providers.items():
             if (old_provider_info := self.providers.get(namespace)) is None:
                 # If provider not yet specified, just copy it
@@ -154,6 +159,9 @@ class VariantsJson(VariantInfo):
                             f"Expected: {old!r}, found: {new!r}"
                         )
 
+        # Merge the variant properties
+        self.variants.update(variant_dist_info.variants)
+
     def _get_expected_aot_namespaces(self) -> set[VariantNamespace]:
         return {
             namespace
-- 
2.43.0


From a0edbe71276525a18ccdd4102c19621d8343f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:02 +0000
Subject: [PATCH 09/16] fix: report variant metadata that is not JSON as a
 validation error

---
 variantlib/variant_dist_info.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/variantlib/variant_dist_info.py b/variantlib/variant_dist_info.py
index 79f6cec..5ec6765 100644
--- a/variantlib/variant_dist_info.py
+++ b/variantlib/variant_dist_info.py
@@ -27,7 +27,13 @@ class VariantDistInfo(VariantsJson):
             super().__init__(dist_info_file)
             return
 
-        self._process(json.loads(dist_info_file))
+        try:
+            data = json.loads(dist_info_file)
+        except ValueError as err:
+            raise ValidationError(
+                f"{VARIANT_DIST_INFO_FILENAME} is not valid JSON: {err}"
+            ) from err
+        self._process(data)
 
         if len(self.variants) != 1:
             raise ValidationError(
-- 
2.43.0


From dca8534c89e444c252583f8ed940621ae898c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:23 +0000
Subject: [PATCH 10/16] fix: refuse null for optional metadata keys instead of
 ignoring it

---
 variantlib/validators/keytracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/validators/keytracking.py b/variantlib/validators/keytracking.py
index a2954af..542c342 100644
--- a/variantlib/validators/keytracking.py
+++ b/variantlib/validators/keytracking.py
@@ -61,6 +61,7 @@ class KeyTrackingValidator:
         self._expected_keys[-1].add(key)
 
         # push the value to the stack
+        is_default = key not in self._data[-1]
         self.keys.append(key)
         self._data.append(self._data[-1].get(key, default))
 
@@ -70,7 +71,7 @@ class KeyTrackingValidator:
         self._expected_keys.append(set())
         # validate only non-default type -- this makes optional keys easier
         # (since type validator can't handle optional types)
-        if self._data[-1] is not default:
+        if not is_default:
             self.validate(self._data[-1], expected_type)
 
         # return the value
-- 
2.43.0


From c54a0069635ef075a2da63fd43f0a30c6c9d4832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 11/16] fix: cope with quoted names, blank lines and a missing
 final newline in RECORD

---
 variantlib/commands/make_variant.py   | 10 ++++++----
 variantlib/commands/unmake_variant.py |  6 +++---
 variantlib/commands/utils.py          |  6 ++++++
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e753993..16ee98f 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -19,6 +19,7 @@ from variantlib.api import VariantProperty
 from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
+from variantlib.commands.utils import get_record_filename
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -264,12 +265,13 @@ def _make_variant(
                     # Update RECORD for the new checksums.
                     with output_zip.open(file_info, "w") as output_file:
                         for line in input_file:
-                            new_line = line
-                            rec_filename, _sha256, _size = line.split(b",")
                             # Skip existing hash for the discarded copy.
-                            if rec_filename.decode("utf-8") == dist_info_path:
+                            if get_record_filename(line) == dist_info_path:
                                 continue
-                            output_file.write(new_line)
+                            output_file.write(line)
+                            # The last line may lack the terminator.
+                            if not line.endswith(b"\n"):
+                                output_file.write(b"\n")
 
                         # Write hash for the new files.
                         new_sha256 = base64.urlsafe_b64encode(
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 5a85984..041300e 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -9,6 +9,7 @@ import shutil
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import get_record_filename
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 
@@ -108,10 +109,9 @@ def _unmake_variant(
                     # Update RECORD to remove the checksum.
                     variant_dist_info_path = (
                         f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    ).encode()
+                    )
                     for line in input_file:
-                        rec_filename, _sha256, _size = line.split(b",")
-                        if rec_filename != variant_dist_info_path:
+                        if get_record_filename(line) != variant_dist_info_path:
                             output_file.write(line)
                 else:
                     shutil.copyfileobj(input_file, output_file)
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index 10826c7..1b30085 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import csv
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
 
@@ -12,3 +13,8 @@ def get_registered_commands(group: str) -> dict[str, EntryPoint]:
     for ep in entry_points().select(group=group):
         commands[ep.name] = ep
     return commands
+
+
+def get_record_filename(line: bytes) -> str | None:
+    """Get the filename from a RECORD line, None if the line is blank"""
+    return next(iter(next(csv.reader([line.decode("utf-8")]))), None)
-- 
2.43.0


From aae11e4ee612c97227083f3602936db49a2f0f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 12/16] fix: refuse multiple values of single-value features in
 make-variant

---
 variantlib/commands/make_variant.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 16ee98f..0da40d7 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -228,6 +228,14 @@ def _make_variant(
                         "The following variant properties use namespaces that are not "
                         f"provided by any installed plugin: {unknown_str}"
                     )
+                if vdesc_valid.multi_value_violations:
+                    features_str = ", ".join(
+                        sorted(x.to_str() for x in vdesc_valid.multi_value_violations)
+                    )
+                    raise ValidationError(
+                        "The following variant features do not permit multiple values: "
+                        f"{features_str}"
+                    )
     else:
         # Create a null variant
         vdesc = VariantDescription()
-- 
2.43.0


From 0737516b5628f0e4557ed768560c9db69071ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 13/16] fix: generate variant metadata before writing the
 wheel, querying plugins in the isolated environment

---
 variantlib/commands/make_variant.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 0da40d7..9aca1b0 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -169,6 +169,8 @@ def _make_variant(
     if wheel_info is None:
         raise ValueError(f"{input_filepath.name!r} is not a valid wheel filename.")
 
+    dist_info_data: str | None = None
+
     if not is_null_variant:
         # Transform properties into a VariantDescription
         vdesc = VariantDescription(properties=properties)
@@ -236,11 +238,25 @@ def _make_variant(
                         "The following variant features do not permit multiple values: "
                         f"{features_str}"
                     )
+
+                # Ahead-of-time plugins are queried in the same environment.
+                dist_info_data = make_variant_dist_info(
+                    vdesc,
+                    variant_info=variant_info,
+                    variant_label=variant_label,
+                    venv_python_executable=venv.python_executable
+                    if venv is not None
+                    else None,
+                )
     else:
         # Create a null variant
         vdesc = VariantDescription()
 
     variant_label = get_variant_label(vdesc, variant_label)
+    if dist_info_data is None:
+        dist_info_data = make_variant_dist_info(
+            vdesc, variant_info=variant_info, variant_label=variant_label
+        )
 
     # Determine output wheel filename
     output_filepath = (
@@ -265,9 +281,6 @@ def _make_variant(
                     # First, add new dist-info file prior to RECORD (not strictly
                     # required, but a nice convention).
                     dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    dist_info_data = make_variant_dist_info(
-                        vdesc, variant_info=variant_info, variant_label=variant_label
-                    )
                     output_zip.writestr(dist_info_path, dist_info_data)
 
                     # Update RECORD for the new checksums.
-- 
2.43.0


From dbff3d6c358aa9b015f54b65f6c4061c9278eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:32 +0000
Subject: [PATCH 14/16] fix: do not destroy the input wheel when make-variant
 would overwrite it

---
 variantlib/commands/make_variant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 9aca1b0..e69758c 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -262,6 +262,10 @@ def _make_variant(
     output_filepath = (
         output_directory / f"{wheel_info.group('base_wheel_name')}-{variant_label}.whl"
     )
+    if output_filepath.exists() and output_filepath.samefile(input_filepath):
+        raise FileExistsError(
+            f"Output file `{output_filepath}` would overwrite the input wheel."
+        )
 
     with (
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-- 
2.43.0


From 9e291b119fcbbf4abc3270d64404deba4be783ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:01 +0000
Subject: [PATCH 15/16] fix: skip files that are not zip archives in
 generate-index-json

---
 variantlib/commands/generate_index_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 6ead9ff..a5bf31e 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -85,7 +85,7 @@ def generate_index_json(args: list[str]) -> None:
                         {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                     )
                     continue
-        except ValidationError as err:
+        except (ValidationError, zipfile.BadZipFile) as err:
             logger.warning(
                 "%(wheel)s: %(err)s",
                 {
-- 
2.43.0


From 78e092e3fb558d60bde9bf97f783f1810d0ef0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:18 +0000
Subject: [PATCH 16/16] fix: keep entry points without an attribute valid when
 updating pyproject.toml

An entry point value naming a bare module was rewritten to `module:`, which
plugin-api does not allow, and any value which changed when normalised lost the
requirement on the package providing it.
---
 variantlib/plugins/loader.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index c4c8388..ceb5773 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -160,6 +160,15 @@ class BasePluginLoader:
     @abstractmethod
     def _load_all_plugins(self) -> None: ...
 
+    @staticmethod
+    def _normalize_plugin_api(plugin_api: str) -> str:
+        plugin_api_match = validate_matches_re(
+            plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
+        )
+        import_name: str = plugin_api_match.group("module")
+        attr_path: str | None = plugin_api_match.group("attr")
+        return f"{import_name}:{attr_path}" if attr_path else import_name
+
     def _load_all_plugins_from_tuple(self, plugin_apis: list[str]) -> None:
         if self._namespace_map is not None:
             raise RuntimeError(
@@ -172,13 +181,8 @@ class BasePluginLoader:
 
         normalized_plugin_apis = []
         for plugin_api in plugin_apis:
-            plugin_api_match = validate_matches_re(
-                plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
-            )
-            import_name: str = plugin_api_match.group("module")
-            attr_path: str = plugin_api_match.group("attr") or ""
             # normalize it before passing to the subprocess
-            normalized_plugin_apis.append(f"{import_name}:{attr_path}")
+            normalized_plugin_apis.append(self._normalize_plugin_api(plugin_api))
 
             logger.info(
                 "Loading plugin via %(plugin_api)s",
@@ -421,7 +425,9 @@ class EntryPointPluginLoader(BasePluginLoader):
 
             plugin_apis.append(ep.value)
             if ep.dist is not None:
-                self._plugin_provider_packages[ep.value] = ep.dist
+                self._plugin_provider_packages[
+                    self._normalize_plugin_api(ep.value)
+                ] = ep.dist
 
         self._load_all_plugins_from_tuple(plugin_apis=plugin_apis)
 
-- 
2.43.0

