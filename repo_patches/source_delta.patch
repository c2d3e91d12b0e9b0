From 5fae0b85f0556a81b7a2172cbaf86684bb33c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 01/34] fix: leave the index unchanged when merging a wheel is
 refused

VariantsJson.merge() added the new variants before checking that priorities and
providers agree, so a refused wheel ended up in the generated index anyway.
---
 variantlib/variants_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 363eeb5..d72aa82 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,9 +112,6 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
-        # Merge the variant properties
-        self.variants.update(variant_dist_info.variants)
-
         # Verify consistency of default priorities
         for attribute in (
             "namespace_priorities",
@@ -154,6 +151,9 @@ class VariantsJson(VariantInfo):
                             f"Expected: {old!r}, found: {new!r}"
                         )
 
+        # Merge the variant properties, once everything is known to be consistent
+        self.variants.update(variant_dist_info.variants)
+
     def _get_expected_aot_namespaces(self) -> set[VariantNamespace]:
         return {
             namespace
-- 
2.43.0


From 2a95ec4b7babfe6655897413831a8559f96bf006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 02/34] fix: refuse to merge different variants using the same
 label

The later wheel silently replaced the variant of the earlier one in the index.
---
 variantlib/variants_json.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index d72aa82..4bd5ea4 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,6 +112,14 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
+        # Verify that labels are not reused for different variants
+        for label, vdesc in variant_dist_info.variants.items():
+            if (old_vdesc := self.variants.get(label, vdesc)) != vdesc:
+                raise ValidationError(
+                    f"Variant label {label!r} used for different variants. "
+                    f"Expected: {old_vdesc!r}, found {vdesc!r}"
+                )
+
         # Verify consistency of default priorities
         for attribute in (
             "namespace_priorities",
-- 
2.43.0


From 3df1994c680baf15edd0107e9aabcfe4e371f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 03/34] fix: refuse to merge wheels with different static
 properties

The static properties of the merged wheel were silently dropped, so that its
variant could be listed in the index but never be found supported.
---
 variantlib/variants_json.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 4bd5ea4..a1fbd2e 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -125,6 +125,7 @@ class VariantsJson(VariantInfo):
             "namespace_priorities",
             "feature_priorities",
             "property_priorities",
+            "static_properties",
         ):
             new_value = getattr(variant_dist_info, attribute)
             old_value = getattr(self, attribute)
-- 
2.43.0


From 270dec9fcc662f0fae6b6ca004589c7ff51d29fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 04/34] fix: do not add the null variant to the caller's list

sort_and_filter_supported_variants() modified its vdescs argument in place.
---
 variantlib/resolver/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index f966d22..66ba49d 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -229,7 +229,7 @@ def sort_and_filter_supported_variants(
         #
         # This can be used to provide a different default build when using
         # a variant-enabled installer.
-        vdescs.append(null_variant)
+        vdescs = [*vdescs, null_variant]
 
     if supported_vprops is None:
         """No supported properties provided, return no variants."""
-- 
2.43.0


From 2f7881a31c030b077766ee65b440f53959c7621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 05/34] fix: do not reuse cached plugin answers across
 interpreters

The cache key ignored the Python executable the plugin is queried in.
---
 variantlib/plugins/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index b87987e..1db3a07 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -96,7 +96,9 @@ class BasePluginLoader:
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
-        cache_key = hash((_plugin_apis, _commands, _args))
+        cache_key = hash(
+            (str(self._python_executable), _plugin_apis, _commands, _args)
+        )
 
         with suppress(KeyError):
             return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
-- 
2.43.0


From a15da4b48d127bcbc73e866d56839bc5b827ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 06/34] fix: keep plugin API references of module plugins valid

A plugin that is a module (no attribute) was normalized to 'module:', which is
not a valid plugin-api value: update-pyproject-toml wrote it to pyproject.toml
and did not find the package providing it.
---
 variantlib/plugins/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 1db3a07..b64deef 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -178,7 +178,9 @@ class BasePluginLoader:
             import_name: str = plugin_api_match.group("module")
             attr_path: str = plugin_api_match.group("attr") or ""
             # normalize it before passing to the subprocess
-            normalized_plugin_apis.append(f"{import_name}:{attr_path}")
+            normalized_plugin_apis.append(
+                f"{import_name}:{attr_path}" if attr_path else import_name
+            )
 
             logger.info(
                 "Loading plugin via %(plugin_api)s",
-- 
2.43.0


From ec33f1c4fa709d293558422083ab554d156674d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 07/34] fix: report invalid plugin output as PluginError

A plugin that exits early, prints to standard output, or fails with non-UTF-8
error output raised JSONDecodeError or UnicodeDecodeError in the caller.
---
 variantlib/plugins/loader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index b64deef..0f19af9 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -152,10 +152,13 @@ class BasePluginLoader:
 
             if process.returncode != 0:
                 raise PluginError(
-                    f"Plugin invocation failed:\n{process.stderr.decode('utf8')}"
+                    f"Plugin invocation failed:\n{process.stderr.decode('utf8', 'replace')}"
                 )
 
-            return json.loads(process.stdout)  # type: ignore[no-any-return]
+            try:
+                return json.loads(process.stdout)  # type: ignore[no-any-return]
+            except ValueError as exc:
+                raise PluginError("Plugin invocation returned invalid output") from exc
 
     @abstractmethod
     def _load_all_plugins(self) -> None: ...
-- 
2.43.0


From 552d90980b87a856e6ffaa83335879a4f139ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 08/34] fix: validate the type of multi_value in feature
 configs

A plugin returning a non-boolean multi_value was accepted, and e.g. a non-empty
string was treated as true.
---
 variantlib/models/provider.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/models/provider.py b/variantlib/models/provider.py
index edc9474..78caaa2 100644
--- a/variantlib/models/provider.py
+++ b/variantlib/models/provider.py
@@ -58,7 +58,9 @@ class VariantFeatureConfig(BaseModel):
         }
     )
 
-    multi_value: bool
+    multi_value: bool = field(
+        metadata={"validator": lambda val: validate_type(val, bool)}
+    )
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 2a2496031db95d4a00d475066c6184c77f07cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 09/34] fix: reject non-JSON wheel metadata with
 ValidationError

A single wheel with an unreadable variant.json made generate-index-json fail
rather than skip that wheel.
---
 variantlib/variant_dist_info.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/variantlib/variant_dist_info.py b/variantlib/variant_dist_info.py
index 79f6cec..5ec6765 100644
--- a/variantlib/variant_dist_info.py
+++ b/variantlib/variant_dist_info.py
@@ -27,7 +27,13 @@ class VariantDistInfo(VariantsJson):
             super().__init__(dist_info_file)
             return
 
-        self._process(json.loads(dist_info_file))
+        try:
+            data = json.loads(dist_info_file)
+        except ValueError as err:
+            raise ValidationError(
+                f"{VARIANT_DIST_INFO_FILENAME} is not valid JSON: {err}"
+            ) from err
+        self._process(data)
 
         if len(self.variants) != 1:
             raise ValidationError(
-- 
2.43.0


From 38fe48da05338ec1b65bc6890e034a0c26cc1284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 10/34] fix: skip files that are not zip archives when
 generating an index

One damaged wheel in the directory made generate-index-json fail for all.
---
 variantlib/commands/generate_index_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 6ead9ff..a5bf31e 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -85,7 +85,7 @@ def generate_index_json(args: list[str]) -> None:
                         {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                     )
                     continue
-        except ValidationError as err:
+        except (ValidationError, zipfile.BadZipFile) as err:
             logger.warning(
                 "%(wheel)s: %(err)s",
                 {
-- 
2.43.0


From 4b837cb868cbd4927653d10895420b85298082e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 11/34] fix: make the generated index independent of directory
 order

When wheels are inconsistent, the first one listed by the file system decided
which of them are indexed.
---
 variantlib/commands/generate_index_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index a5bf31e..2412883 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -46,7 +46,7 @@ def generate_index_json(args: list[str]) -> None:
         lambda: defaultdict(set)
     )
 
-    for wheel in directory.glob("*.whl"):
+    for wheel in sorted(directory.glob("*.whl")):
         # Skip non wheel variants
         if (wheel_info := VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)) is None:
             logger.exception(
-- 
2.43.0


From 390b102c9c0cf5a86af2ca26128b1e5772a61c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 12/34] fix: use the effective version of packages installed
 more than once

When a package is found in several sys.path entries, the first one is imported,
but the ABI dependency properties were those of the last one.
---
 variantlib/resolver/lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index 66ba49d..c529a4e 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -128,10 +128,10 @@ def inject_abi_dependency(
     """Inject supported vairants for the abi_dependency namespace"""
 
     # 1. Automatically populate from the current python environment
-    packages = {
-        _normalize_package_name(dist.name): dist.version
-        for dist in importlib.metadata.distributions()
-    }
+    packages: dict[str, str] = {}
+    for dist in importlib.metadata.distributions():
+        # the first one found is the one that is imported
+        packages.setdefault(_normalize_package_name(dist.name), dist.version)
 
     # 2. Manually fed from environment variable
     #    Env Var Format: `VARIANT_ABI_DEPENDENCY=packageA==1.2.3,...,packageZ==7.8.9`
-- 
2.43.0


From 2f03802dc42361b76821200c95b9eca82d001fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 13/34] fix: ignore invalid packages and VARIANT_ABI_DEPENDENCY
 entries

An installed package with broken metadata, or an entry with an invalid name or
version, made every resolution fail rather than being ignored.
---
 variantlib/resolver/lib.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index c529a4e..102d41b 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -6,8 +6,10 @@ import os
 from typing import TYPE_CHECKING
 
 from packaging.utils import canonicalize_name
+from packaging.version import InvalidVersion
 from packaging.version import Version
 
+from variantlib.constants import VALIDATION_FEATURE_NAME_REGEX
 from variantlib.constants import VARIANT_ABI_DEPENDENCY_NAMESPACE
 from variantlib.models.variant import VariantDescription
 from variantlib.models.variant import VariantFeature
@@ -35,6 +37,20 @@ def _normalize_package_name(name: str) -> str:
     return canonicalize_name(name).replace("-", "_")
 
 
+def _is_valid_package(name: str | None, version: str | None) -> bool:
+    # both can be None if the metadata is broken
+    if name is None or version is None:
+        return False
+    try:
+        Version(version)
+    except InvalidVersion:
+        return False
+    return (
+        VALIDATION_FEATURE_NAME_REGEX.fullmatch(_normalize_package_name(name))
+        is not None
+    )
+
+
 def _generate_version_matches(version: str) -> Generator[str]:
     vspec = Version(version)
     yield f"{vspec.major}"
@@ -130,6 +146,9 @@ def inject_abi_dependency(
     # 1. Automatically populate from the current python environment
     packages: dict[str, str] = {}
     for dist in importlib.metadata.distributions():
+        if not _is_valid_package(dist.name, dist.version):
+            logger.warning("Ignoring package with invalid metadata: %s", dist)
+            continue
         # the first one found is the one that is imported
         packages.setdefault(_normalize_package_name(dist.name), dist.version)
 
@@ -139,6 +158,8 @@ def inject_abi_dependency(
         for pkg_spec in variant_abi_deps_env.split(","):
             try:
                 pkg_name, pkg_version = pkg_spec.split("==", maxsplit=1)
+                if not _is_valid_package(pkg_name, pkg_version):
+                    raise ValueError  # noqa: TRY301
             except ValueError:
                 logger.warning(
                     "`VARIANT_ABI_DEPENDENCY` received an invalid value "
-- 
2.43.0


From d22c10d69459671304fc4cb50f4c67c9d0a430b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 14/34] fix: consider installed packages in
 check_variant_supported()

Variants with abi_dependency properties were reported as unsupported, although
get_variants_by_priority() offers them.
---
 variantlib/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/variantlib/api.py b/variantlib/api.py
index d1f887a..355dce4 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -22,6 +22,7 @@ from variantlib.models.variant import VariantValidationResult
 from variantlib.models.variant_info import VariantInfo
 from variantlib.plugins.loader import PluginLoader
 from variantlib.resolver.lib import filter_variants
+from variantlib.resolver.lib import inject_abi_dependency
 from variantlib.resolver.lib import sort_and_filter_supported_variants
 from variantlib.utils import aggregate_feature_priorities
 from variantlib.utils import aggregate_namespace_priorities
@@ -315,6 +316,7 @@ def check_variant_supported(
         )
 
     VariantConfiguration.get_config()
+    inject_abi_dependency(supported_vprops, [])
 
     return bool(
         list(
-- 
2.43.0


From a2406740bd7234a5d2ec2e8d3cab69aa2a5f76a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 15/34] fix: delete static properties together with their
 provider

Deleting an ahead-of-time provider left its static properties behind, which made
the resulting pyproject.toml invalid.
---
 variantlib/commands/update_pyproject_toml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 22aecc8..938dd9b 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -13,6 +13,7 @@ from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_DATA_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_PLUGIN_API_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_REQUIRES_KEY
+from variantlib.constants import VARIANT_INFO_STATIC_PROPERTIES_KEY
 from variantlib.plugins.loader import EntryPointPluginLoader
 
 
@@ -69,6 +70,9 @@ def update_pyproject_toml(args: list[str]) -> None:
                 namespace_prio_key.remove(namespace)
             if namespace in provider_table:
                 del provider_table[namespace]
+            static_table = variant_table.get(VARIANT_INFO_STATIC_PROPERTIES_KEY, {})
+            if namespace in static_table:
+                del static_table[namespace]
 
         for namespace in parsed_args.add:
             if namespace not in loader.namespaces:
-- 
2.43.0


From 9c091d120e7da5b7b6fba0c5a4d5b50fc661dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 16/34] fix: support quoted file names in RECORD

make-variant and unmake-variant failed on wheels with files whose name contains
a comma (which is quoted in RECORD), or with empty lines in RECORD.
---
 variantlib/commands/make_variant.py   | 4 ++--
 variantlib/commands/unmake_variant.py | 6 +++---
 variantlib/commands/utils.py          | 7 +++++++
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e753993..453908f 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -19,6 +19,7 @@ from variantlib.api import VariantProperty
 from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
+from variantlib.commands.utils import get_record_filename
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -265,9 +266,8 @@ def _make_variant(
                     with output_zip.open(file_info, "w") as output_file:
                         for line in input_file:
                             new_line = line
-                            rec_filename, _sha256, _size = line.split(b",")
                             # Skip existing hash for the discarded copy.
-                            if rec_filename.decode("utf-8") == dist_info_path:
+                            if get_record_filename(line) == dist_info_path:
                                 continue
                             output_file.write(new_line)
 
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 5a85984..041300e 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -9,6 +9,7 @@ import shutil
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import get_record_filename
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 
@@ -108,10 +109,9 @@ def _unmake_variant(
                     # Update RECORD to remove the checksum.
                     variant_dist_info_path = (
                         f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    ).encode()
+                    )
                     for line in input_file:
-                        rec_filename, _sha256, _size = line.split(b",")
-                        if rec_filename != variant_dist_info_path:
+                        if get_record_filename(line) != variant_dist_info_path:
                             output_file.write(line)
                 else:
                     shutil.copyfileobj(input_file, output_file)
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index 10826c7..ffd841e 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -2,10 +2,17 @@
 
 from __future__ import annotations
 
+import csv
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
 
 
+def get_record_filename(line: bytes) -> str | None:
+    """Get the (possibly quoted) filename from a line of RECORD"""
+    row = next(csv.reader([line.decode("utf-8")]), [])
+    return row[0] if row else None
+
+
 def get_registered_commands(group: str) -> dict[str, EntryPoint]:
     """Collect entry points for the given group, preserving original names."""
     commands = {}
-- 
2.43.0


From b32c28ef4e089ccbf6eed8b823ccf758e0814b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 17/34] fix: do not append to an unterminated last line of
 RECORD

The entry of the variant metadata was glued to the last line of a RECORD not
ending in a newline.
---
 variantlib/commands/make_variant.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 453908f..74b6515 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -264,13 +264,18 @@ def _make_variant(
 
                     # Update RECORD for the new checksums.
                     with output_zip.open(file_info, "w") as output_file:
+                        new_line = b"\n"
                         for line in input_file:
-                            new_line = line
                             # Skip existing hash for the discarded copy.
                             if get_record_filename(line) == dist_info_path:
                                 continue
+                            new_line = line
                             output_file.write(new_line)
 
+                        # The last line may be unterminated.
+                        if not new_line.endswith(b"\n"):
+                            output_file.write(b"\n")
+
                         # Write hash for the new files.
                         new_sha256 = base64.urlsafe_b64encode(
                             hashlib.sha256(dist_info_data.encode("utf8")).digest()
-- 
2.43.0


From c3f684ef2e5e4c9d2e46f0948f3c5b7b5fbcd663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 18/34] fix: do not destroy or leave behind broken wheels on
 failure

make-variant and unmake-variant wrote directly to the output path: a failure left
a truncated wheel there (in place of an existing one), and rebuilding a variant
under the same label in its own directory destroyed the input.
---
 variantlib/commands/make_variant.py   |  4 +++-
 variantlib/commands/unmake_variant.py |  4 +++-
 variantlib/commands/utils.py          | 18 ++++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 74b6515..36f4c37 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -20,6 +20,7 @@ from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
 from variantlib.commands.utils import get_record_filename
+from variantlib.commands.utils import replace_on_success
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -240,8 +241,9 @@ def _make_variant(
     )
 
     with (
+        replace_on_success(output_filepath) as temp_filepath,
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 041300e..7072cf2 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -10,6 +10,7 @@ import zipfile
 
 from variantlib import __package_name__
 from variantlib.commands.utils import get_record_filename
+from variantlib.commands.utils import replace_on_success
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 
@@ -90,8 +91,9 @@ def _unmake_variant(
     output_filepath = output_directory / f"{wheel_info.group('base_wheel_name')}.whl"
 
     with (
+        replace_on_success(output_filepath) as temp_filepath,
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index ffd841e..e8bf579 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -3,8 +3,26 @@
 from __future__ import annotations
 
 import csv
+import os
+from contextlib import contextmanager
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
+from typing import TYPE_CHECKING
+
+if TYPE_CHECKING:
+    from collections.abc import Generator
+    from pathlib import Path
+
+
+@contextmanager
+def replace_on_success(path: Path) -> Generator[Path]:
+    """Provide a temporary path, that replaces `path` unless an exception is raised"""
+    temp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    try:
+        yield temp_path
+        temp_path.replace(path)
+    finally:
+        temp_path.unlink(missing_ok=True)
 
 
 def get_record_filename(line: bytes) -> str | None:
-- 
2.43.0


From 7cb9f0a1add11e743e84009c5aa3403e5b4c1824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 19/34] fix: refuse multiple values for single-value features
 in make-variant

validate_variant() reports such variants as not valid, but make-variant ignored
that part of the result.
---
 variantlib/commands/make_variant.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 36f4c37..da71fc9 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -229,6 +229,14 @@ def _make_variant(
                         "The following variant properties use namespaces that are not "
                         f"provided by any installed plugin: {unknown_str}"
                     )
+                if vdesc_valid.multi_value_violations:
+                    violations_str = ", ".join(
+                        x.to_str() for x in sorted(vdesc_valid.multi_value_violations)
+                    )
+                    raise ValidationError(
+                        "The following variant features do not accept multiple values "
+                        f"according to the plugins: {violations_str}"
+                    )
     else:
         # Create a null variant
         vdesc = VariantDescription()
-- 
2.43.0


From 8987990980e28bc6bdac6884ca0c57358e475608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 20/34] fix: report undeclared namespaces in make-variant with
 isolation

A property of a namespace without a provider crashed with KeyError rather than
being reported, as with --no-isolation.
---
 variantlib/commands/make_variant.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index da71fc9..29bd307 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -195,7 +195,11 @@ def _make_variant(
                     try:
                         venv.install(
                             variant_info.get_provider_requires(
-                                {vprop.namespace for vprop in vdesc.properties}
+                                {
+                                    vprop.namespace
+                                    for vprop in vdesc.properties
+                                    if vprop.namespace in variant_info.providers
+                                }
                             )
                         )
                     except CalledProcessError as err:
-- 
2.43.0


From 4dc6cec566741f6d2801569eae72327f160f4471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 21/34] fix: expand ahead-of-time providers inside the isolated
 environment

make-variant queried ahead-of-time plugins in the calling environment, where they
are not installed, after removing the isolated one.
---
 variantlib/commands/make_variant.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 29bd307..23e7e77 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -170,6 +170,7 @@ def _make_variant(
     if wheel_info is None:
         raise ValueError(f"{input_filepath.name!r} is not a valid wheel filename.")
 
+    dist_info_data = None
     if not is_null_variant:
         # Transform properties into a VariantDescription
         vdesc = VariantDescription(properties=properties)
@@ -241,6 +242,15 @@ def _make_variant(
                         "The following variant features do not accept multiple values "
                         f"according to the plugins: {violations_str}"
                     )
+
+                # The plugins are only available inside the isolated environment
+                if venv is not None:
+                    dist_info_data = make_variant_dist_info(
+                        vdesc,
+                        variant_info=variant_info,
+                        variant_label=variant_label,
+                        venv_python_executable=venv.python_executable,
+                    )
     else:
         # Create a null variant
         vdesc = VariantDescription()
@@ -271,9 +281,12 @@ def _make_variant(
                     # First, add new dist-info file prior to RECORD (not strictly
                     # required, but a nice convention).
                     dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    dist_info_data = make_variant_dist_info(
-                        vdesc, variant_info=variant_info, variant_label=variant_label
-                    )
+                    if dist_info_data is None:
+                        dist_info_data = make_variant_dist_info(
+                            vdesc,
+                            variant_info=variant_info,
+                            variant_label=variant_label,
+                        )
                     output_zip.writestr(dist_info_path, dist_info_data)
 
                     # Update RECORD for the new checksums.
-- 
2.43.0


From ff4db777efd7263de44398ae28e8ec57d3a7f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 22/34] fix: ignore packages with undecodable metadata in
 abi_dependency

---
 variantlib/resolver/lib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index 102d41b..b22ac9a 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -146,11 +146,15 @@ def inject_abi_dependency(
     # 1. Automatically populate from the current python environment
     packages: dict[str, str] = {}
     for dist in importlib.metadata.distributions():
-        if not _is_valid_package(dist.name, dist.version):
+        try:
+            name, version = dist.name, dist.version
+        except UnicodeDecodeError:
+            name = version = None
+        if not _is_valid_package(name, version):
             logger.warning("Ignoring package with invalid metadata: %s", dist)
             continue
         # the first one found is the one that is imported
-        packages.setdefault(_normalize_package_name(dist.name), dist.version)
+        packages.setdefault(_normalize_package_name(name), version)
 
     # 2. Manually fed from environment variable
     #    Env Var Format: `VARIANT_ABI_DEPENDENCY=packageA==1.2.3,...,packageZ==7.8.9`
-- 
2.43.0


From 5dcc940cf586c197d262538fb08b39bac2f36930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 23/34] fix: skip wheels with damaged metadata when generating
 index

---
 variantlib/commands/generate_index_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 2412883..3a63913 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -4,6 +4,7 @@ import argparse
 import logging
 import pathlib
 import zipfile
+import zlib
 from collections import defaultdict
 from typing import TYPE_CHECKING
 
@@ -85,7 +86,7 @@ def generate_index_json(args: list[str]) -> None:
                         {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                     )
                     continue
-        except (ValidationError, zipfile.BadZipFile) as err:
+        except (ValidationError, zipfile.BadZipFile, zlib.error, EOFError) as err:
             logger.warning(
                 "%(wheel)s: %(err)s",
                 {
-- 
2.43.0


From 7676139f858917420d2d9727aa989825a5f7324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 24/34] fix: reject empty configuration values of the wrong
 type

---
 variantlib/models/configuration.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/variantlib/models/configuration.py b/variantlib/models/configuration.py
index 8a2bc3a..d36a1b3 100644
--- a/variantlib/models/configuration.py
+++ b/variantlib/models/configuration.py
@@ -130,9 +130,15 @@ class VariantConfiguration(BaseModel):
         """
 
         return cls(
-            namespace_priorities=namespace_priorities or [],
-            feature_priorities=feature_priorities or {},
-            property_priorities=property_priorities or {},
+            namespace_priorities=(
+                [] if namespace_priorities is None else namespace_priorities
+            ),
+            feature_priorities=(
+                {} if feature_priorities is None else feature_priorities
+            ),
+            property_priorities=(
+                {} if property_priorities is None else property_priorities
+            ),
         )
 
     def to_dict(self) -> dict[str, Any]:
-- 
2.43.0


From c52f3622b0d00b58c6c6ec250c3801841424998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:31 +0000
Subject: [PATCH 25/34] fix: find the package of a plugin whose entry point
 contains whitespace

---
 variantlib/plugins/loader.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 0f19af9..1a34e4b 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -49,6 +49,15 @@ logger = logging.getLogger(__name__)
 VARIANT_PROVIDER_CACHE_TABLE: dict[int, dict[str, Any]] = {}
 
 
+def _normalize_plugin_api(plugin_api: str) -> str:
+    plugin_api_match = validate_matches_re(
+        plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
+    )
+    import_name: str = plugin_api_match.group("module")
+    attr_path: str = plugin_api_match.group("attr") or ""
+    return f"{import_name}:{attr_path}" if attr_path else import_name
+
+
 class BasePluginLoader:
     """Load and query plugins"""
 
@@ -175,15 +184,8 @@ class BasePluginLoader:
 
         normalized_plugin_apis = []
         for plugin_api in plugin_apis:
-            plugin_api_match = validate_matches_re(
-                plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
-            )
-            import_name: str = plugin_api_match.group("module")
-            attr_path: str = plugin_api_match.group("attr") or ""
             # normalize it before passing to the subprocess
-            normalized_plugin_apis.append(
-                f"{import_name}:{attr_path}" if attr_path else import_name
-            )
+            normalized_plugin_apis.append(_normalize_plugin_api(plugin_api))
 
             logger.info(
                 "Loading plugin via %(plugin_api)s",
@@ -426,7 +428,9 @@ class EntryPointPluginLoader(BasePluginLoader):
 
             plugin_apis.append(ep.value)
             if ep.dist is not None:
-                self._plugin_provider_packages[ep.value] = ep.dist
+                self._plugin_provider_packages[_normalize_plugin_api(ep.value)] = (
+                    ep.dist
+                )
 
         self._load_all_plugins_from_tuple(plugin_apis=plugin_apis)
 
-- 
2.43.0


From 097ce5f579dae7b9ebdc458dfb5c0c6199af22ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 26/34] fix: write complete provider tables into out-of-order
 pyproject.toml tables

---
 variantlib/commands/update_pyproject_toml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 938dd9b..f58c758 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -83,7 +83,10 @@ def update_pyproject_toml(args: list[str]) -> None:
             if namespace not in namespace_prio_key:
                 namespace_prio_key.append(namespace)
 
-            namespace_table = provider_table.setdefault(namespace, {})
+            # fill new tables prior to inserting them, since out-of-order tables
+            # do not yield a reference to the inserted table
+            is_new = namespace not in provider_table
+            namespace_table = {} if is_new else provider_table[namespace]
             plugin_api = loader.plugin_api_values[namespace]
             namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = plugin_api
             default_requires = []
@@ -92,6 +95,8 @@ def update_pyproject_toml(args: list[str]) -> None:
             namespace_table.setdefault(
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
+            if is_new:
+                provider_table[namespace] = namespace_table
 
     toml_file.write(toml_data)
     sys.stdout.write(f"Wrote changes to {parsed_args.file}\n")
-- 
2.43.0


From 636119039fe47230193c46b1b1e1c56909e184c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 27/34] fix: re-add a deleted provider to out-of-order
 pyproject.toml tables

---
 variantlib/commands/update_pyproject_toml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index f58c758..30cc56b 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -74,6 +74,12 @@ def update_pyproject_toml(args: list[str]) -> None:
             if namespace in static_table:
                 del static_table[namespace]
 
+        # deleting from out-of-order tables invalidates them, so get them again
+        variant_table = toml_data[PYPROJECT_TOML_TOP_KEY]
+        default_prio_table = variant_table[VARIANT_INFO_DEFAULT_PRIO_KEY]
+        namespace_prio_key = default_prio_table[VARIANT_INFO_NAMESPACE_KEY]
+        provider_table = variant_table[VARIANT_INFO_PROVIDER_DATA_KEY]
+
         for namespace in parsed_args.add:
             if namespace not in loader.namespaces:
                 raise RuntimeError(
-- 
2.43.0


From 76df74bf62d2fffbb0bb0d09455dde1c92af90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:14 +0000
Subject: [PATCH 28/34] fix: do not keep outdated static properties of plugins
 supporting nothing

---
 variantlib/api.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/variantlib/api.py b/variantlib/api.py
index 355dce4..8b32a0f 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -230,6 +230,13 @@ def make_variant_dist_info(
                     require_fixed=True
                 ).values()
 
+                # discard previously recorded properties, since the plugin may
+                # not support anything anymore
+                for namespace in build_namespaces.intersection(
+                    plugin_loader.namespaces
+                ):
+                    variant_json.static_properties[namespace] = {}
+
             for config in configs:
                 if config.namespace not in build_namespaces:
                     continue
-- 
2.43.0


From 22aa9c68f130d9a79f62c2333631f1bbea81e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:24 +0000
Subject: [PATCH 29/34] fix: skip wheels with any kind of unreadable metadata
 when generating index

---
 variantlib/commands/generate_index_json.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 3a63913..859ed03 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import argparse
 import logging
+import lzma
 import pathlib
 import zipfile
 import zlib
@@ -86,7 +87,16 @@ def generate_index_json(args: list[str]) -> None:
                         {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                     )
                     continue
-        except (ValidationError, zipfile.BadZipFile, zlib.error, EOFError) as err:
+        except (
+            ValidationError,
+            zipfile.BadZipFile,
+            # damaged or unsupported (e.g. encrypted) archive members
+            zlib.error,
+            lzma.LZMAError,
+            EOFError,
+            OSError,
+            RuntimeError,
+        ) as err:
             logger.warning(
                 "%(wheel)s: %(err)s",
                 {
-- 
2.43.0


From 2a55c92593f277498d202a9ab8fb9aab7b135c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:54 +0000
Subject: [PATCH 30/34] fix: delete several providers from out-of-order
 pyproject.toml tables

---
 variantlib/commands/update_pyproject_toml.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 30cc56b..3acdd20 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -74,11 +74,11 @@ def update_pyproject_toml(args: list[str]) -> None:
             if namespace in static_table:
                 del static_table[namespace]
 
-        # deleting from out-of-order tables invalidates them, so get them again
-        variant_table = toml_data[PYPROJECT_TOML_TOP_KEY]
-        default_prio_table = variant_table[VARIANT_INFO_DEFAULT_PRIO_KEY]
-        namespace_prio_key = default_prio_table[VARIANT_INFO_NAMESPACE_KEY]
-        provider_table = variant_table[VARIANT_INFO_PROVIDER_DATA_KEY]
+            # deleting from out-of-order tables invalidates them, so get them again
+            variant_table = toml_data[PYPROJECT_TOML_TOP_KEY]
+            default_prio_table = variant_table[VARIANT_INFO_DEFAULT_PRIO_KEY]
+            namespace_prio_key = default_prio_table[VARIANT_INFO_NAMESPACE_KEY]
+            provider_table = variant_table[VARIANT_INFO_PROVIDER_DATA_KEY]
 
         for namespace in parsed_args.add:
             if namespace not in loader.namespaces:
-- 
2.43.0


From 85561b8f5c2eee326eaa3dbd747b613c1c1a5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 31/34] fix: do not share cached plugin answers with callers

---
 variantlib/plugins/loader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 1a34e4b..148eacb 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import importlib
 import importlib.resources
 import json
@@ -109,15 +110,17 @@ class BasePluginLoader:
             (str(self._python_executable), _plugin_apis, _commands, _args)
         )
 
+        # Return copies, so that callers modifying the answer (or objects built from
+        # it) do not modify what subsequent callers get.
         with suppress(KeyError):
-            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
+            return copy.deepcopy(VARIANT_PROVIDER_CACHE_TABLE[cache_key])
 
         result = self._run_call_subprocess(
             plugin_apis=_plugin_apis,
             commands=_commands,
             args=_args,
         )
-        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = result
+        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = copy.deepcopy(result)
         return result
 
     def _run_call_subprocess(
-- 
2.43.0


From cd2712987ca5aad7e06f9f502b26af6cd2bb53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 32/34] fix: replace index and project files only once
 completely written

---
 variantlib/commands/add_wheel_to_index_json.py | 4 +++-
 variantlib/commands/generate_index_json.py     | 4 +++-
 variantlib/commands/update_pyproject_toml.py   | 9 ++++++++-
 variantlib/commands/utils.py                   | 5 +++++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/variantlib/commands/add_wheel_to_index_json.py b/variantlib/commands/add_wheel_to_index_json.py
index 7cc12f1..8b20573 100644
--- a/variantlib/commands/add_wheel_to_index_json.py
+++ b/variantlib/commands/add_wheel_to_index_json.py
@@ -7,6 +7,7 @@ import pathlib
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import replace_on_success
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -137,4 +138,5 @@ def add_wheel_to_index_json(args: list[str]) -> None:
             "to proceed."
         )
 
-    output_json_file.write_text(variant_json.to_str())
+    with replace_on_success(output_json_file) as temp_path:
+        temp_path.write_text(variant_json.to_str())
diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 859ed03..53a409e 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -10,6 +10,7 @@ from collections import defaultdict
 from typing import TYPE_CHECKING
 
 from variantlib import __package_name__
+from variantlib.commands.utils import replace_on_success
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -133,4 +134,5 @@ def generate_index_json(args: list[str]) -> None:
 
     for namever, variants_json in output_files.items():
         path = directory / f"{namever}-variants.json"
-        path.write_text(variants_json.to_str())
+        with replace_on_success(path) as temp_path:
+            temp_path.write_text(variants_json.to_str())
diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 3acdd20..418840c 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -1,12 +1,14 @@
 from __future__ import annotations
 
 import argparse
+import shutil
 import sys
 from pathlib import Path
 
 from tomlkit.toml_file import TOMLFile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import replace_on_success
 from variantlib.constants import PYPROJECT_TOML_TOP_KEY
 from variantlib.constants import VARIANT_INFO_DEFAULT_PRIO_KEY
 from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
@@ -104,5 +106,10 @@ def update_pyproject_toml(args: list[str]) -> None:
             if is_new:
                 provider_table[namespace] = namespace_table
 
-    toml_file.write(toml_data)
+    with replace_on_success(parsed_args.file) as temp_path:
+        # read the copy to preserve its line endings
+        shutil.copyfile(parsed_args.file, temp_path)
+        temp_file = TOMLFile(temp_path)
+        temp_file.read()
+        temp_file.write(toml_data)
     sys.stdout.write(f"Wrote changes to {parsed_args.file}\n")
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index e8bf579..325903e 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import csv
 import os
+import shutil
 from contextlib import contextmanager
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
@@ -17,9 +18,13 @@ if TYPE_CHECKING:
 @contextmanager
 def replace_on_success(path: Path) -> Generator[Path]:
     """Provide a temporary path, that replaces `path` unless an exception is raised"""
+    # replace the target of a symbolic link rather than the link
+    path = path.resolve()
     temp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
     try:
         yield temp_path
+        if path.exists():
+            shutil.copymode(path, temp_path)
         temp_path.replace(path)
     finally:
         temp_path.unlink(missing_ok=True)
-- 
2.43.0


From 77d4725e84819d41c085afad4db9c7726221c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:27 +0000
Subject: [PATCH 33/34] fix: name the refused variant label in make-variant
 errors

---
 variantlib/commands/make_variant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 23e7e77..2960a7a 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -116,12 +116,12 @@ def make_variant(args: list[str]) -> None:
             parser.error("--variant-label cannot be used with --null-variant")
         if parsed_args.variant_label == "null":
             parser.error(
-                "invalid variant label: 'none' is reserved for the --null-variant"
+                "invalid variant label: 'null' is reserved for the --null-variant"
             )
         if not VALIDATION_VARIANT_LABEL_REGEX.fullmatch(parsed_args.variant_label):
             parser.error(
                 f"invalid variant label (must be up to {VARIANT_LABEL_LENGTH} "
-                "alphanumeric characters): {parsed_args.variant_label!r}"
+                f"alphanumeric characters): {parsed_args.variant_label!r}"
             )
 
     try:
-- 
2.43.0


From e7475018a4441ecb636e12a427d0a3180711e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:20 +0000
Subject: [PATCH 34/34] fix: name the configuration file that is not valid TOML

---
 variantlib/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/configuration.py b/variantlib/configuration.py
index 437aa84..86c5c00 100644
--- a/variantlib/configuration.py
+++ b/variantlib/configuration.py
@@ -103,7 +103,9 @@ class VariantConfiguration:
             try:
                 config = tomllib.load(f)
             except tomllib.TOMLDecodeError as e:
-                raise ConfigurationError from e
+                raise ConfigurationError(
+                    f"Invalid TOML in configuration file {config_file}: {e}"
+                ) from e
 
         try:
             return ConfigurationModel.from_toml_config(**config)
-- 
2.43.0

