From dea8ae06ae253f7c44e3b6a1e881b947de094985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 01/29] fix: key the plugin result cache by interpreter and do
 not alias cached data

Results queried through one Python interpreter were returned for another,
and callers modifying returned configs silently changed later answers.
---
 variantlib/plugins/loader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index b87987e..f3dea61 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -9,6 +9,7 @@ import sys
 from abc import abstractmethod
 from collections.abc import Collection
 from contextlib import suppress
+from copy import deepcopy
 from importlib.metadata import Distribution
 from importlib.metadata import entry_points
 from pathlib import Path
@@ -96,17 +97,19 @@ class BasePluginLoader:
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
-        cache_key = hash((_plugin_apis, _commands, _args))
+        cache_key = hash((str(self._python_executable), _plugin_apis, _commands, _args))
 
+        # NB: the results are copied both ways, so that modifying the returned
+        # objects does not alter the cached data
         with suppress(KeyError):
-            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
+            return deepcopy(VARIANT_PROVIDER_CACHE_TABLE[cache_key])
 
         result = self._run_call_subprocess(
             plugin_apis=_plugin_apis,
             commands=_commands,
             args=_args,
         )
-        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = result
+        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = deepcopy(result)
         return result
 
     def _run_call_subprocess(
-- 
2.43.0


From 94518fd13338c92228506d96dc8c9fe8b4560811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 02/29] fix: verify consistency before merging variants, and
 check all of the data

A rejected merge left the variants of the rejected wheel in the result.
Differing static properties, or a label describing different variants,
were silently accepted with the outcome depending on the merge order.
---
 variantlib/variants_json.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 363eeb5..997df07 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,14 +112,12 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
-        # Merge the variant properties
-        self.variants.update(variant_dist_info.variants)
-
-        # Verify consistency of default priorities
+        # Verify consistency of default priorities and static properties
         for attribute in (
             "namespace_priorities",
             "feature_priorities",
             "property_priorities",
+            "static_properties",
         ):
             new_value = getattr(variant_dist_info, attribute)
             old_value = getattr(self, attribute)
@@ -135,6 +133,13 @@ class VariantsJson(VariantInfo):
                 f"Before:\n{self.providers}.\n\nAfter:\n{variant_dist_info.providers}."
             )
 
+        for label, vdesc in variant_dist_info.variants.items():
+            if (old_vdesc := self.variants.get(label, vdesc)) != vdesc:
+                raise ValidationError(
+                    f"Inconsistency in variant {label!r} when merging variants. "
+                    f"Expected: {old_vdesc!r}, found {vdesc!r}"
+                )
+
         for namespace, provider_info in variant_dist_info.providers.items():
             if (old_provider_info := self.providers.get(namespace)) is None:
                 # If provider not yet specified, just copy it
@@ -154,6 +159,9 @@ class VariantsJson(VariantInfo):
                             f"Expected: {old!r}, found: {new!r}"
                         )
 
+        # Only once everything is known to be consistent, merge the variant properties
+        self.variants.update(variant_dist_info.variants)
+
     def _get_expected_aot_namespaces(self) -> set[VariantNamespace]:
         return {
             namespace
-- 
2.43.0


From 7d246b9cc606ffa36e4a11f00b5a9e501488305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 03/29] fix: make generate-index-json independent of directory
 listing order

With inconsistent wheels, which of them was taken as the reference
depended on the order in which the filesystem happened to list them.
---
 variantlib/commands/generate_index_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 6ead9ff..5f6dac1 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -46,7 +46,8 @@ def generate_index_json(args: list[str]) -> None:
         lambda: defaultdict(set)
     )
 
-    for wheel in directory.glob("*.whl"):
+    # sort, so that the result does not depend on the directory listing order
+    for wheel in sorted(directory.glob("*.whl")):
         # Skip non wheel variants
         if (wheel_info := VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)) is None:
             logger.exception(
-- 
2.43.0


From 28ce432955cc6fae5cb69b211b5e3db64c576529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 04/29] fix: handle quoted paths, blank lines and missing final
 newline in RECORD

make-variant and unmake-variant crashed on wheels whose RECORD had
a path containing a comma or a blank line, and make-variant corrupted
the last entry if RECORD did not end with a newline.
---
 variantlib/commands/make_variant.py   | 6 +++++-
 variantlib/commands/unmake_variant.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e753993..ef85cd2 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -265,10 +265,14 @@ def _make_variant(
                     with output_zip.open(file_info, "w") as output_file:
                         for line in input_file:
                             new_line = line
-                            rec_filename, _sha256, _size = line.split(b",")
+                            # The path may contain (quoted) commas.
+                            rec_filename = line.rsplit(b",", 2)[0]
                             # Skip existing hash for the discarded copy.
                             if rec_filename.decode("utf-8") == dist_info_path:
                                 continue
+                            # The final newline may be missing.
+                            if not new_line.endswith(b"\n"):
+                                new_line += b"\n"
                             output_file.write(new_line)
 
                         # Write hash for the new files.
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 5a85984..c0a2737 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -110,7 +110,8 @@ def _unmake_variant(
                         f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
                     ).encode()
                     for line in input_file:
-                        rec_filename, _sha256, _size = line.split(b",")
+                        # The path may contain (quoted) commas.
+                        rec_filename = line.rsplit(b",", 2)[0]
                         if rec_filename != variant_dist_info_path:
                             output_file.write(line)
                 else:
-- 
2.43.0


From 0eefff5450f4f3bcb9e7ea34cf6eff7bd1484cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 05/29] fix: record static properties for all ahead-of-time
 providers

make_variant_dist_info() recorded them only for the namespaces used by
the variant, producing a file that could not be read back otherwise
(e.g. for the null variant). Providers that are disabled or support
nothing caused a KeyError.
---
 variantlib/api.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/variantlib/api.py b/variantlib/api.py
index d1f887a..ad120ec 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -203,13 +203,12 @@ def make_variant_dist_info(
     variant_json.variant_label = get_variant_label(vdesc, variant_label)
 
     if expand_aot_plugin_properties:
-        namespaces = {vprop.namespace for vprop in vdesc.properties}
+        # The resulting file must provide static properties for all AoT providers,
+        # whether the variant is using them or not.
         build_namespaces = {
             ns
-            for ns in namespaces
-            if ns in variant_info.providers
-            and not variant_info.providers[ns].install_time
-            and variant_info.providers[ns].requires
+            for ns, provider_data in variant_info.providers.items()
+            if not provider_data.install_time and provider_data.requires
         }
         if build_namespaces:
             venv_python_executable = (
@@ -229,10 +228,13 @@ def make_variant_dist_info(
                     require_fixed=True
                 ).values()
 
+            # Providers that are disabled or support nothing have no properties.
+            for namespace in build_namespaces:
+                variant_json.static_properties[namespace] = {}
+
             for config in configs:
                 if config.namespace not in build_namespaces:
                     continue
-                variant_json.static_properties[config.namespace] = {}
                 for vfeat in config.configs:
                     if vfeat.multi_value:
                         raise ValidationError(
-- 
2.43.0


From 507dee8b02ada070b34d2b92fae00046345d0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 06/29] fix: query AoT providers in the isolated environment in
 make-variant

The static properties were always queried using the calling Python
environment, where the provider need not be installed, and a failure
to do so left an incomplete wheel. An unknown namespace under isolation
caused a KeyError rather than a ValidationError.
---
 variantlib/commands/make_variant.py | 130 +++++++++++++++-------------
 1 file changed, 71 insertions(+), 59 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index ef85cd2..431785a 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -171,67 +171,82 @@ def _make_variant(
     if not is_null_variant:
         # Transform properties into a VariantDescription
         vdesc = VariantDescription(properties=properties)
-
-        if validate_properties:
-            env_factory: DefaultIsolatedEnv | nullcontext[None]
-
-            if use_isolation:
-                # make it really verbose to make mypy happy
-                if installer is None:
-                    env_factory = DefaultIsolatedEnv()
-                elif installer == "pip":
-                    env_factory = DefaultIsolatedEnv(installer="pip")
-                elif installer == "uv":
-                    env_factory = DefaultIsolatedEnv(installer="uv")
-                else:
-                    raise ValueError(f"unexpected installer={installer}")
-            else:
-                env_factory = nullcontext()
-
-            with env_factory as venv:
-                if venv is not None:
-                    try:
-                        venv.install(
-                            variant_info.get_provider_requires(
-                                {vprop.namespace for vprop in vdesc.properties}
-                            )
-                        )
-                    except CalledProcessError as err:
-                        sys.stderr.write(
-                            "Installing variant provider dependencies failed:\n"
-                            f"{err.stderr.decode()}"
-                        )
-                        raise
-
-                # Verify whether the variant properties are valid
-                vdesc_valid = validate_variant(
-                    vdesc,
-                    variant_info=variant_info,
-                    venv_python_executable=venv.python_executable
-                    if venv is not None
-                    else None,
-                )
-                if vdesc_valid.invalid_properties:
-                    invalid_str = ", ".join(
-                        x.to_str() for x in vdesc_valid.invalid_properties
-                    )
-                    raise ValidationError(
-                        "The following variant properties are invalid according to the "
-                        f"plugins: {invalid_str}"
-                    )
-                if vdesc_valid.unknown_properties:
-                    unknown_str = ", ".join(
-                        x.to_str() for x in vdesc_valid.unknown_properties
-                    )
-                    raise ValidationError(
-                        "The following variant properties use namespaces that are not "
-                        f"provided by any installed plugin: {unknown_str}"
-                    )
     else:
         # Create a null variant
         vdesc = VariantDescription()
 
     variant_label = get_variant_label(vdesc, variant_label)
+    validate_properties = validate_properties and not is_null_variant
+
+    # AoT providers need to be queried to record their static properties, the others
+    # only to validate the properties used.
+    used_namespaces = {vprop.namespace for vprop in vdesc.properties}
+    queried_namespaces = {
+        namespace
+        for namespace, provider_data in variant_info.providers.items()
+        if (not provider_data.install_time and provider_data.requires)
+        or (validate_properties and namespace in used_namespaces)
+    }
+
+    env_factory: DefaultIsolatedEnv | nullcontext[None]
+
+    if use_isolation and queried_namespaces:
+        # make it really verbose to make mypy happy
+        if installer is None:
+            env_factory = DefaultIsolatedEnv()
+        elif installer == "pip":
+            env_factory = DefaultIsolatedEnv(installer="pip")
+        elif installer == "uv":
+            env_factory = DefaultIsolatedEnv(installer="uv")
+        else:
+            raise ValueError(f"unexpected installer={installer}")
+    else:
+        env_factory = nullcontext()
+
+    with env_factory as venv:
+        if venv is not None:
+            try:
+                venv.install(variant_info.get_provider_requires(queried_namespaces))
+            except CalledProcessError as err:
+                sys.stderr.write(
+                    "Installing variant provider dependencies failed:\n"
+                    f"{err.stderr.decode()}"
+                )
+                raise
+
+        venv_python_executable = venv.python_executable if venv is not None else None
+
+        if validate_properties:
+            # Verify whether the variant properties are valid
+            vdesc_valid = validate_variant(
+                vdesc,
+                variant_info=variant_info,
+                venv_python_executable=venv_python_executable,
+            )
+            if vdesc_valid.invalid_properties:
+                invalid_str = ", ".join(
+                    x.to_str() for x in vdesc_valid.invalid_properties
+                )
+                raise ValidationError(
+                    "The following variant properties are invalid according to the "
+                    f"plugins: {invalid_str}"
+                )
+            if vdesc_valid.unknown_properties:
+                unknown_str = ", ".join(
+                    x.to_str() for x in vdesc_valid.unknown_properties
+                )
+                raise ValidationError(
+                    "The following variant properties use namespaces that are not "
+                    f"provided by any installed plugin: {unknown_str}"
+                )
+
+        # Query the providers before starting to write the output file.
+        dist_info_data = make_variant_dist_info(
+            vdesc,
+            variant_info=variant_info,
+            variant_label=variant_label,
+            venv_python_executable=venv_python_executable,
+        )
 
     # Determine output wheel filename
     output_filepath = (
@@ -256,9 +271,6 @@ def _make_variant(
                     # First, add new dist-info file prior to RECORD (not strictly
                     # required, but a nice convention).
                     dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    dist_info_data = make_variant_dist_info(
-                        vdesc, variant_info=variant_info, variant_label=variant_label
-                    )
                     output_zip.writestr(dist_info_path, dist_info_data)
 
                     # Update RECORD for the new checksums.
-- 
2.43.0


From 25643a8e9c3880f4ba457b297a8a2da76ac947de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 07/29] fix: reject multi-value violations in make-variant

The validation result reports them as invalid, yet make-variant
produced wheels violating the plugins' single-value features.
---
 variantlib/commands/make_variant.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 431785a..3e0b0b3 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -239,6 +239,14 @@ def _make_variant(
                     "The following variant properties use namespaces that are not "
                     f"provided by any installed plugin: {unknown_str}"
                 )
+            if vdesc_valid.multi_value_violations:
+                multi_value_str = ", ".join(
+                    x.to_str() for x in sorted(vdesc_valid.multi_value_violations)
+                )
+                raise ValidationError(
+                    "The following variant features do not permit multiple values "
+                    f"according to the plugins: {multi_value_str}"
+                )
 
         # Query the providers before starting to write the output file.
         dist_info_data = make_variant_dist_info(
-- 
2.43.0


From 389444d295a39ee166f990b3b46831df937a5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 08/29] fix: replace output files atomically

If make-variant, unmake-variant, generate-index-json,
add-wheel-to-index-json or update-pyproject-toml failed while writing,
the previous file was lost and a truncated one left in its place.
make-variant also destroyed its input when writing on top of it.
---
 .../commands/add_wheel_to_index_json.py       |  4 +++-
 variantlib/commands/generate_index_json.py    |  4 +++-
 variantlib/commands/make_variant.py           |  4 +++-
 variantlib/commands/unmake_variant.py         |  4 +++-
 variantlib/commands/update_pyproject_toml.py  |  9 ++++++-
 variantlib/commands/utils.py                  | 24 +++++++++++++++++++
 6 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/variantlib/commands/add_wheel_to_index_json.py b/variantlib/commands/add_wheel_to_index_json.py
index 7cc12f1..7320182 100644
--- a/variantlib/commands/add_wheel_to_index_json.py
+++ b/variantlib/commands/add_wheel_to_index_json.py
@@ -7,6 +7,7 @@ import pathlib
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -137,4 +138,5 @@ def add_wheel_to_index_json(args: list[str]) -> None:
             "to proceed."
         )
 
-    output_json_file.write_text(variant_json.to_str())
+    with atomic_output_path(output_json_file) as temp_path:
+        temp_path.write_text(variant_json.to_str())
diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 5f6dac1..24dfafa 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -8,6 +8,7 @@ from collections import defaultdict
 from typing import TYPE_CHECKING
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -123,4 +124,5 @@ def generate_index_json(args: list[str]) -> None:
 
     for namever, variants_json in output_files.items():
         path = directory / f"{namever}-variants.json"
-        path.write_text(variants_json.to_str())
+        with atomic_output_path(path) as temp_path:
+            temp_path.write_text(variants_json.to_str())
diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 3e0b0b3..0d4b500 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -19,6 +19,7 @@ from variantlib.api import VariantProperty
 from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -262,8 +263,9 @@ def _make_variant(
     )
 
     with (
+        atomic_output_path(output_filepath) as temp_output_filepath,
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        zipfile.ZipFile(temp_output_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index c0a2737..822f305 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -9,6 +9,7 @@ import shutil
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 
@@ -89,8 +90,9 @@ def _unmake_variant(
     output_filepath = output_directory / f"{wheel_info.group('base_wheel_name')}.whl"
 
     with (
+        atomic_output_path(output_filepath) as temp_output_filepath,
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        zipfile.ZipFile(temp_output_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 22aecc8..817f4d5 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -1,12 +1,14 @@
 from __future__ import annotations
 
 import argparse
+import shutil
 import sys
 from pathlib import Path
 
 from tomlkit.toml_file import TOMLFile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output_path
 from variantlib.constants import PYPROJECT_TOML_TOP_KEY
 from variantlib.constants import VARIANT_INFO_DEFAULT_PRIO_KEY
 from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
@@ -89,5 +91,10 @@ def update_pyproject_toml(args: list[str]) -> None:
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
 
-    toml_file.write(toml_data)
+    with atomic_output_path(parsed_args.file) as temp_path:
+        # TOMLFile remembers the line endings from reading the file
+        shutil.copyfile(parsed_args.file, temp_path)
+        temp_toml_file = TOMLFile(temp_path)
+        temp_toml_file.read()
+        temp_toml_file.write(toml_data)
     sys.stdout.write(f"Wrote changes to {parsed_args.file}\n")
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index 10826c7..3a50e44 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -2,8 +2,16 @@
 
 from __future__ import annotations
 
+import shutil
+from contextlib import contextmanager
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
+from pathlib import Path
+from tempfile import TemporaryDirectory
+from typing import TYPE_CHECKING
+
+if TYPE_CHECKING:
+    from collections.abc import Generator
 
 
 def get_registered_commands(group: str) -> dict[str, EntryPoint]:
@@ -12,3 +20,19 @@ def get_registered_commands(group: str) -> dict[str, EntryPoint]:
     for ep in entry_points().select(group=group):
         commands[ep.name] = ep
     return commands
+
+
+@contextmanager
+def atomic_output_path(path: Path) -> Generator[Path]:
+    """
+    Get a temporary path to write to, that replaces `path` on success
+
+    If the body fails, `path` is left as it was.
+    """
+    path = path.resolve()
+    with TemporaryDirectory(prefix=".variantlib", dir=path.parent) as temp_dir:
+        temp_path = Path(temp_dir) / path.name
+        yield temp_path
+        if path.exists():
+            shutil.copymode(path, temp_path)
+        temp_path.replace(path)
-- 
2.43.0


From 445676e99e6b1e0ce585d984a7be494ef18c9441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 09/29] fix: do not modify the caller's list when adding the
 implicit null variant

---
 variantlib/resolver/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index f966d22..66ba49d 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -229,7 +229,7 @@ def sort_and_filter_supported_variants(
         #
         # This can be used to provide a different default build when using
         # a variant-enabled installer.
-        vdescs.append(null_variant)
+        vdescs = [*vdescs, null_variant]
 
     if supported_vprops is None:
         """No supported properties provided, return no variants."""
-- 
2.43.0


From 4a74aef1f1828308756ffefe446fd0666b316cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 10/29] fix: do not conflate variants whose shortened hashes
 collide

The hash is cut to 32 bits, so two variants of a package can share it.
One of them was dropped as a duplicate, and the label returned could
have been that of a variant not supported by the system.
---
 variantlib/api.py                | 7 ++++---
 variantlib/resolver/filtering.py | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/variantlib/api.py b/variantlib/api.py
index ad120ec..b9d7325 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -78,14 +78,15 @@ def get_variants_by_priority(
         )
 
     config = VariantConfiguration.get_config()
+    # NB: the (shortened) hash is not sufficient to identify the variant
     label_map = {
-        vdesc.hexdigest: label for label, vdesc in variants_json.variants.items()
+        tuple(vdesc.properties): label for label, vdesc in variants_json.variants.items()
     }
     # handle the implicit null variant
-    label_map.setdefault(VariantDescription([]).hexdigest, NULL_VARIANT_LABEL)
+    label_map.setdefault((), NULL_VARIANT_LABEL)
 
     return [
-        label_map[vdesc.hexdigest]
+        label_map[tuple(vdesc.properties)]
         for vdesc in sort_and_filter_supported_variants(
             list(variants_json.variants.values()),
             supported_vprops,
diff --git a/variantlib/resolver/filtering.py b/variantlib/resolver/filtering.py
index da77def..47241eb 100644
--- a/variantlib/resolver/filtering.py
+++ b/variantlib/resolver/filtering.py
@@ -34,14 +34,16 @@ def remove_duplicates(
         """
         validate_type(vdesc, VariantDescription)
 
-        if vdesc.hexdigest in seen:
+        # NB: the (shortened) hash is not sufficient to identify the variant
+        vdesc_key = tuple(vdesc.properties)
+        if vdesc_key in seen:
             logger.info(
                 "Variant `%(vhash)s` has been removed because it is a duplicate",
                 {"vhash": vdesc.hexdigest},
             )
             return False
 
-        seen.add(vdesc.hexdigest)
+        seen.add(vdesc_key)
         return True
 
     yield from filter(_should_include, vdescs)
-- 
2.43.0


From 9382959d9505ef3e576372b280e13c61afdd7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 11/29] fix: consider ABI dependencies in
 check_variant_supported()

It returned False for variants that get_variants_by_priority() lists
as supported.
---
 variantlib/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/variantlib/api.py b/variantlib/api.py
index b9d7325..d1362aa 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -22,6 +22,7 @@ from variantlib.models.variant import VariantValidationResult
 from variantlib.models.variant_info import VariantInfo
 from variantlib.plugins.loader import PluginLoader
 from variantlib.resolver.lib import filter_variants
+from variantlib.resolver.lib import inject_abi_dependency
 from variantlib.resolver.lib import sort_and_filter_supported_variants
 from variantlib.utils import aggregate_feature_priorities
 from variantlib.utils import aggregate_namespace_priorities
@@ -319,6 +320,9 @@ def check_variant_supported(
 
     VariantConfiguration.get_config()
 
+    # consider the same properties as get_variants_by_priority() does
+    inject_abi_dependency(supported_vprops, [])
+
     return bool(
         list(
             filter_variants(
-- 
2.43.0


From fc6ccd7b3a372a45ec89a2e1227f423e1ed06895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:35 +0000
Subject: [PATCH 12/29] fix: reset the plugin loader if entering the context
 fails

The failed loader answered queries with partial data rather than
NoPluginFoundError, and could not be entered again.
---
 variantlib/plugins/loader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index f3dea61..574a53e 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -74,7 +74,12 @@ class BasePluginLoader:
     def __enter__(self) -> Self:
         if self._namespace_map is not None:
             raise RuntimeError("Already inside the context manager!")
-        self._load_all_plugins()
+        try:
+            self._load_all_plugins()
+        except BaseException:
+            # __exit__() will not be called
+            self._namespace_map = None
+            raise
         return self
 
     def __exit__(
-- 
2.43.0


From 6f8ead02b4eb6afd15962af90588935994a6ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 13/29] fix: normalize plugin API values consistently

For a plugin that is a module, update-pyproject-toml wrote 'module:' that
variantlib itself refuses to read. The provider package was not found
if the entry point value was not in the normalized form.
---
 variantlib/plugins/loader.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 574a53e..5714b14 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -50,6 +50,15 @@ logger = logging.getLogger(__name__)
 VARIANT_PROVIDER_CACHE_TABLE: dict[int, dict[str, Any]] = {}
 
 
+def _normalize_plugin_api(plugin_api: str) -> str:
+    plugin_api_match = validate_matches_re(
+        plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
+    )
+    import_name: str = plugin_api_match.group("module")
+    attr_path: str | None = plugin_api_match.group("attr")
+    return import_name if attr_path is None else f"{import_name}:{attr_path}"
+
+
 class BasePluginLoader:
     """Load and query plugins"""
 
@@ -178,13 +187,8 @@ class BasePluginLoader:
 
         normalized_plugin_apis = []
         for plugin_api in plugin_apis:
-            plugin_api_match = validate_matches_re(
-                plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
-            )
-            import_name: str = plugin_api_match.group("module")
-            attr_path: str = plugin_api_match.group("attr") or ""
             # normalize it before passing to the subprocess
-            normalized_plugin_apis.append(f"{import_name}:{attr_path}")
+            normalized_plugin_apis.append(_normalize_plugin_api(plugin_api))
 
             logger.info(
                 "Loading plugin via %(plugin_api)s",
@@ -427,7 +431,10 @@ class EntryPointPluginLoader(BasePluginLoader):
 
             plugin_apis.append(ep.value)
             if ep.dist is not None:
-                self._plugin_provider_packages[ep.value] = ep.dist
+                # use the same form as plugin_api_values
+                self._plugin_provider_packages[_normalize_plugin_api(ep.value)] = (
+                    ep.dist
+                )
 
         self._load_all_plugins_from_tuple(plugin_apis=plugin_apis)
 
-- 
2.43.0


From 6156f5e1592547b69447885879e6bb3c73fe72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 14/29] fix: keep static properties consistent in
 update-pyproject-toml

Deleting an AoT provider, or adding a plugin for one, left its static
properties in place, and the resulting pyproject.toml could not be read.
---
 variantlib/commands/update_pyproject_toml.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 817f4d5..e697ac1 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -15,6 +15,7 @@ from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_DATA_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_PLUGIN_API_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_REQUIRES_KEY
+from variantlib.constants import VARIANT_INFO_STATIC_PROPERTIES_KEY
 from variantlib.plugins.loader import EntryPointPluginLoader
 
 
@@ -65,12 +66,16 @@ def update_pyproject_toml(args: list[str]) -> None:
     namespace_prio_key = default_prio_table.setdefault(VARIANT_INFO_NAMESPACE_KEY, [])
     provider_table = variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, {})
 
+    static_properties_table = variant_table.get(VARIANT_INFO_STATIC_PROPERTIES_KEY, {})
+
     with EntryPointPluginLoader() as loader:
         for namespace in parsed_args.delete:
             while namespace in namespace_prio_key:
                 namespace_prio_key.remove(namespace)
             if namespace in provider_table:
                 del provider_table[namespace]
+            # static properties are invalid without the provider
+            static_properties_table.pop(namespace, None)
 
         for namespace in parsed_args.add:
             if namespace not in loader.namespaces:
@@ -90,6 +95,9 @@ def update_pyproject_toml(args: list[str]) -> None:
             namespace_table.setdefault(
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
+            # static properties are invalid if the plugin is going to be queried
+            if namespace_table[VARIANT_INFO_PROVIDER_REQUIRES_KEY]:
+                static_properties_table.pop(namespace, None)
 
     with atomic_output_path(parsed_args.file) as temp_path:
         # TOMLFile remembers the line endings from reading the file
-- 
2.43.0


From e2b61edb5fdd6bbcd9ad2b7b1f50a5967e5da243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 15/29] fix: report malformed plugin output as PluginError

A plugin exiting early, writing to stdout, or failing with a non-UTF-8
message resulted in JSONDecodeError, KeyError or UnicodeDecodeError.
---
 variantlib/plugins/loader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 5714b14..4172144 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -167,10 +167,21 @@ class BasePluginLoader:
 
             if process.returncode != 0:
                 raise PluginError(
-                    f"Plugin invocation failed:\n{process.stderr.decode('utf8')}"
+                    "Plugin invocation failed:\n"
+                    f"{process.stderr.decode('utf8', errors='replace')}"
                 )
 
-            return json.loads(process.stdout)  # type: ignore[no-any-return]
+            # The plugin can exit early, or write to stdout.
+            try:
+                result = json.loads(process.stdout)
+            except ValueError as err:
+                raise PluginError("Plugin invocation returned invalid JSON") from err
+            if (
+                not isinstance(result, dict)
+                or result.keys() != json.loads(commands).keys()
+            ):
+                raise PluginError("Plugin invocation returned incorrect results")
+            return result
 
     @abstractmethod
     def _load_all_plugins(self) -> None: ...
-- 
2.43.0


From fba44eac845e89f90e3cc407452a7bb2ab6aa056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 16/29] fix: validate the type of multi_value in feature
 configs

A plugin declaring e.g. multi_value = 'no' was taken as multi-value.
---
 variantlib/models/provider.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/models/provider.py b/variantlib/models/provider.py
index edc9474..78caaa2 100644
--- a/variantlib/models/provider.py
+++ b/variantlib/models/provider.py
@@ -58,7 +58,9 @@ class VariantFeatureConfig(BaseModel):
         }
     )
 
-    multi_value: bool
+    multi_value: bool = field(
+        metadata={"validator": lambda val: validate_type(val, bool)}
+    )
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 9653392173297be90c165420c3a5609638e6c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 17/29] fix: ignore invalid packages when collecting ABI
 dependencies

A package with broken metadata anywhere on sys.path, or a malformed
VARIANT_ABI_DEPENDENCY entry, made resolving any variants impossible.
If a package was found twice, the shadowed one was considered.
---
 variantlib/resolver/lib.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index 66ba49d..34a1407 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -6,8 +6,10 @@ import os
 from typing import TYPE_CHECKING
 
 from packaging.utils import canonicalize_name
+from packaging.version import InvalidVersion
 from packaging.version import Version
 
+from variantlib.constants import VALIDATION_FEATURE_NAME_REGEX
 from variantlib.constants import VARIANT_ABI_DEPENDENCY_NAMESPACE
 from variantlib.models.variant import VariantDescription
 from variantlib.models.variant import VariantFeature
@@ -35,6 +37,20 @@ def _normalize_package_name(name: str) -> str:
     return canonicalize_name(name).replace("-", "_")
 
 
+def _is_valid_package(name: str | None, version: str | None) -> bool:
+    """Check if the package can be expressed as a property (metadata may be broken)"""
+    if name is None or version is None:
+        return False
+    try:
+        Version(version)
+    except InvalidVersion:
+        return False
+    return (
+        VALIDATION_FEATURE_NAME_REGEX.fullmatch(_normalize_package_name(name))
+        is not None
+    )
+
+
 def _generate_version_matches(version: str) -> Generator[str]:
     vspec = Version(version)
     yield f"{vspec.major}"
@@ -128,18 +144,26 @@ def inject_abi_dependency(
     """Inject supported vairants for the abi_dependency namespace"""
 
     # 1. Automatically populate from the current python environment
-    packages = {
-        _normalize_package_name(dist.name): dist.version
-        for dist in importlib.metadata.distributions()
-    }
+    packages: dict[str, str] = {}
+    for dist in importlib.metadata.distributions():
+        if not _is_valid_package(dist.name, dist.version):
+            logger.warning(
+                "Ignoring package `%(pkg_name)s` installed in the python environment, "
+                "since its name or version (`%(pkg_version)s`) is invalid.",
+                {"pkg_name": dist.name, "pkg_version": dist.version},
+            )
+            continue
+        # the first distribution found is the one that is going to be imported
+        packages.setdefault(_normalize_package_name(dist.name), dist.version)
 
     # 2. Manually fed from environment variable
     #    Env Var Format: `VARIANT_ABI_DEPENDENCY=packageA==1.2.3,...,packageZ==7.8.9`
     if variant_abi_deps_env := os.environ.get("VARIANT_ABI_DEPENDENCY"):
         for pkg_spec in variant_abi_deps_env.split(","):
-            try:
-                pkg_name, pkg_version = pkg_spec.split("==", maxsplit=1)
-            except ValueError:
+            pkg_name, _, pkg_version = (
+                part.strip() for part in pkg_spec.partition("==")
+            )
+            if not _is_valid_package(pkg_name, pkg_version):
                 logger.warning(
                     "`VARIANT_ABI_DEPENDENCY` received an invalid value "
                     "`%(pkg_spec)s`. It will be ignored.\n"
-- 
2.43.0


From 1a03ea3d5229ee03cd3c93ff7a57fe4457b5a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 18/29] fix: keep empty static properties of a provider when
 reading metadata

---
 variantlib/models/variant_info.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/variantlib/models/variant_info.py b/variantlib/models/variant_info.py
index 19101a7..ae68768 100644
--- a/variantlib/models/variant_info.py
+++ b/variantlib/models/variant_info.py
@@ -238,14 +238,16 @@ class VariantInfo:
                     namespace, dict[VariantFeatureName, list[VariantFeatureValue]]
                 ) as feature_dict:
                     validator.list_matches_re(VALIDATION_FEATURE_NAME_REGEX)
+                    # NB: a provider may support nothing at all
+                    self.static_properties[namespace] = {}
                     for feature_name in feature_dict:
                         with validator.get(
                             feature_name, list[VariantFeatureValue]
                         ) as feature_values:
                             validator.list_matches_re(VALIDATION_VALUE_REGEX)
-                            self.static_properties.setdefault(namespace, {})[
-                                feature_name
-                            ] = feature_values
+                            self.static_properties[namespace][feature_name] = (
+                                feature_values
+                            )
 
                     if len(feature_dict) > 1:
                         feature_prios = set(self.feature_priorities.get(namespace, []))
-- 
2.43.0


From 02a3ff2bbd2ebcce26dd5a0d385f6d4250bfe2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 19/29] fix: do not cache invalid plugin results

---
 variantlib/plugins/loader.py | 90 ++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 24 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 4172144..40cf951 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -8,7 +8,6 @@ import subprocess
 import sys
 from abc import abstractmethod
 from collections.abc import Collection
-from contextlib import suppress
 from copy import deepcopy
 from importlib.metadata import Distribution
 from importlib.metadata import entry_points
@@ -16,19 +15,24 @@ from pathlib import Path
 from tempfile import TemporaryDirectory
 from typing import TYPE_CHECKING
 from typing import Any
+from typing import TypeVar
 from typing import cast
 
 from packaging.markers import Marker
 from packaging.markers import default_environment
 
+from variantlib.constants import VALIDATION_NAMESPACE_REGEX
 from variantlib.constants import VALIDATION_PROVIDER_PLUGIN_API_REGEX
 from variantlib.errors import NoPluginFoundError
 from variantlib.errors import PluginError
 from variantlib.models.provider import ProviderConfig
 from variantlib.models.provider import VariantFeatureConfig
+from variantlib.protocols import VariantNamespace
 from variantlib.validators.base import validate_matches_re
+from variantlib.validators.base import validate_type
 
 if TYPE_CHECKING:
+    from collections.abc import Callable
     from types import TracebackType
     from typing import Any
     from typing import Literal
@@ -37,7 +41,6 @@ if TYPE_CHECKING:
     from variantlib.models.variant_info import VariantInfo
     from variantlib.protocols import VariantFeatureName
     from variantlib.protocols import VariantFeatureValue
-    from variantlib.protocols import VariantNamespace
 
 if sys.version_info >= (3, 11):
     from typing import Self
@@ -46,6 +49,7 @@ else:
 
 logger = logging.getLogger(__name__)
 
+R = TypeVar("R")
 
 VARIANT_PROVIDER_CACHE_TABLE: dict[int, dict[str, Any]] = {}
 
@@ -106,25 +110,35 @@ class BasePluginLoader:
         plugin_apis: list[str],
         commands: dict[str, Any],
         args: Collection[str] = (),
-    ) -> dict[str, Any]:
+        *,
+        process: Callable[[dict[str, Any]], R],
+    ) -> R:
+        """
+        Call the commands in the plugin subprocess, and process their results
+
+        The results are cached only if processing them succeeds, so that invalid
+        results are not returned again.
+        """
+
         _plugin_apis: tuple[str] = tuple(plugin_apis)  # type: ignore[assignment]
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
         cache_key = hash((str(self._python_executable), _plugin_apis, _commands, _args))
 
-        # NB: the results are copied both ways, so that modifying the returned
-        # objects does not alter the cached data
-        with suppress(KeyError):
-            return deepcopy(VARIANT_PROVIDER_CACHE_TABLE[cache_key])
+        result = VARIANT_PROVIDER_CACHE_TABLE.get(cache_key)
+        if result is None:
+            result = self._run_call_subprocess(
+                plugin_apis=_plugin_apis,
+                commands=_commands,
+                args=_args,
+            )
 
-        result = self._run_call_subprocess(
-            plugin_apis=_plugin_apis,
-            commands=_commands,
-            args=_args,
-        )
-        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = deepcopy(result)
-        return result
+        # NB: the results are copied, so that modifying the returned objects does not
+        # alter the cached data
+        retval = process(deepcopy(result))
+        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = result
+        return retval
 
     def _run_call_subprocess(
         self, plugin_apis: tuple[str], commands: bytes, args: tuple[str]
@@ -208,18 +222,29 @@ class BasePluginLoader:
                 },
             )
 
-        namespaces = self._call_subprocess(normalized_plugin_apis, {"namespaces": {}})[
-            "namespaces"
-        ]
+        self._namespace_map = self._call_subprocess(
+            normalized_plugin_apis,
+            {"namespaces": {}},
+            process=lambda result: self._process_namespaces(result["namespaces"]),
+        )
+
+    def _process_namespaces(
+        self, namespaces: dict[str, VariantNamespace]
+    ) -> dict[str, VariantNamespace]:
+        namespace_map: dict[str, VariantNamespace] = {}
 
         for plugin_api, namespace in namespaces.items():
-            if namespace in self._namespace_map.values():
+            validate_type(namespace, VariantNamespace)
+            validate_matches_re(
+                namespace, VALIDATION_NAMESPACE_REGEX, f"{plugin_api} namespace"
+            )
+            if namespace in namespace_map.values():
                 raise RuntimeError(
                     "Two plugins found using the same namespace "
                     f"{namespace}. Refusing to proceed."
                 )
 
-            self._namespace_map[plugin_api] = namespace
+            namespace_map[plugin_api] = namespace
             logger.info(
                 "Namespace %(namespace)s provided by plugin %(plugin_api)s",
                 {
@@ -228,6 +253,8 @@ class BasePluginLoader:
                 },
             )
 
+        return namespace_map
+
     def _check_plugins_loaded(self) -> None:
         if self._namespace_map is None:
             raise NoPluginFoundError("No plugin has been loaded in the environment.")
@@ -258,11 +285,26 @@ class BasePluginLoader:
         if not self._namespace_map:
             return provider_cfgs
 
-        configs = self._call_subprocess(
-            list(self._namespace_map.keys()),
-            {method: {}},
-            args=["--require-fixed"] if require_fixed else [],
-        )[method]
+        provider_cfgs.update(
+            self._call_subprocess(
+                list(self._namespace_map.keys()),
+                {method: {}},
+                args=["--require-fixed"] if require_fixed else [],
+                process=lambda result: self._process_configs(
+                    result[method], method, require_non_empty
+                ),
+            )
+        )
+        return provider_cfgs
+
+    def _process_configs(
+        self,
+        configs: dict[str, list[dict[str, Any]]],
+        method: str,
+        require_non_empty: bool,
+    ) -> dict[str, ProviderConfig]:
+        assert self._namespace_map is not None
+        provider_cfgs = {}
 
         for plugin_api, plugin_configs in configs.items():
             namespace = self._namespace_map[plugin_api]
-- 
2.43.0


From 9696da5349dbe09bc896d6843f7e7efd972858cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:54 +0000
Subject: [PATCH 20/29] fix: do not alias static properties in returned configs

---
 variantlib/plugins/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 40cf951..34f6031 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -274,7 +274,9 @@ class BasePluginLoader:
             namespace: ProviderConfig(
                 namespace=namespace,
                 configs=[
-                    VariantFeatureConfig(name=name, values=values, multi_value=False)
+                    VariantFeatureConfig(
+                        name=name, values=list(values), multi_value=False
+                    )
                     for name, values in features.items()
                 ],
             )
-- 
2.43.0


From 1080e7763a86090cf40d1b3dd094bb2062fce688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 21/29] fix: reject null for optional metadata keys

---
 variantlib/validators/keytracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/variantlib/validators/keytracking.py b/variantlib/validators/keytracking.py
index a2954af..fa9e423 100644
--- a/variantlib/validators/keytracking.py
+++ b/variantlib/validators/keytracking.py
@@ -62,15 +62,16 @@ class KeyTrackingValidator:
 
         # push the value to the stack
         self.keys.append(key)
+        is_default = key not in self._data[-1]
         self._data.append(self._data[-1].get(key, default))
 
         if self._data[-1] is self.RequiredKey:
             raise ValidationError(f"{self.key}: required key not found")
 
         self._expected_keys.append(set())
-        # validate only non-default type -- this makes optional keys easier
+        # validate only values that are present -- this makes optional keys easier
         # (since type validator can't handle optional types)
-        if self._data[-1] is not default:
+        if not is_default:
             self.validate(self._data[-1], expected_type)
 
         # return the value
-- 
2.43.0


From da11076d2bcb7e5ca2c9ce3ab18050587488080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 22/29] fix: validate all names in the variants table

---
 variantlib/variants_json.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 997df07..b7fc47c 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -8,6 +8,8 @@ from typing import TYPE_CHECKING
 from typing import Any
 
 from variantlib.constants import NULL_VARIANT_LABEL
+from variantlib.constants import VALIDATION_FEATURE_NAME_REGEX
+from variantlib.constants import VALIDATION_NAMESPACE_REGEX
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VARIANT_INFO_DEFAULT_PRIO_KEY
 from variantlib.constants import VARIANT_INFO_FEATURE_KEY
@@ -29,6 +31,8 @@ from variantlib.errors import ValidationError
 from variantlib.models.variant import VariantDescription
 from variantlib.models.variant_info import ProviderInfo
 from variantlib.models.variant_info import VariantInfo
+from variantlib.protocols import VariantFeatureName
+from variantlib.protocols import VariantFeatureValue
 from variantlib.validators.keytracking import KeyTrackingValidator
 
 if TYPE_CHECKING:
@@ -187,6 +191,16 @@ class VariantsJson(VariantInfo):
                     VariantInfoJsonDict,
                     ignore_subkeys=True,
                 ) as packed_vdesc:
+                    # NB: also cover names that no property is specified for
+                    validator.list_matches_re(VALIDATION_NAMESPACE_REGEX)
+                    for namespace in packed_vdesc:
+                        with validator.get(
+                            namespace,
+                            dict[VariantFeatureName, list[VariantFeatureValue]],
+                            ignore_subkeys=True,
+                        ):
+                            validator.list_matches_re(VALIDATION_FEATURE_NAME_REGEX)
+
                     vdesc = VariantDescription.from_dict(packed_vdesc)
                     if vdesc.is_null_variant() and variant_label != NULL_VARIANT_LABEL:
                         raise ValidationError(
-- 
2.43.0


From 17710e0226c740e9136e8b436742c8f1e482aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 23/29] fix: do not create tables when deleting from
 pyproject.toml

---
 variantlib/commands/update_pyproject_toml.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index e697ac1..27f69d2 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -4,6 +4,7 @@ import argparse
 import shutil
 import sys
 from pathlib import Path
+from typing import Any
 
 from tomlkit.toml_file import TOMLFile
 
@@ -60,11 +61,16 @@ def update_pyproject_toml(args: list[str]) -> None:
     except FileNotFoundError:
         parser.error(f"{str(parsed_args.file)!r} does not exist")
 
-    # prepare all relevant tables
-    variant_table = toml_data.setdefault(PYPROJECT_TOML_TOP_KEY, {})
-    default_prio_table = variant_table.setdefault(VARIANT_INFO_DEFAULT_PRIO_KEY, {})
-    namespace_prio_key = default_prio_table.setdefault(VARIANT_INFO_NAMESPACE_KEY, [])
-    provider_table = variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, {})
+    # prepare all relevant tables (deleting does not create any)
+    def get_table(parent: Any, key: str, default: Any) -> Any:
+        if parsed_args.add:
+            return parent.setdefault(key, default)
+        return parent.get(key, default)
+
+    variant_table = get_table(toml_data, PYPROJECT_TOML_TOP_KEY, {})
+    default_prio_table = get_table(variant_table, VARIANT_INFO_DEFAULT_PRIO_KEY, {})
+    namespace_prio_key = get_table(default_prio_table, VARIANT_INFO_NAMESPACE_KEY, [])
+    provider_table = get_table(variant_table, VARIANT_INFO_PROVIDER_DATA_KEY, {})
 
     static_properties_table = variant_table.get(VARIANT_INFO_STATIC_PROPERTIES_KEY, {})
 
-- 
2.43.0


From 6f34eed9bf126fc072fbb805c0e921c2481a2849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:25 +0000
Subject: [PATCH 24/29] fix: refuse configuration values of a wrong type even
 if they are false

---
 variantlib/models/configuration.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/variantlib/models/configuration.py b/variantlib/models/configuration.py
index 8a2bc3a..d36a1b3 100644
--- a/variantlib/models/configuration.py
+++ b/variantlib/models/configuration.py
@@ -130,9 +130,15 @@ class VariantConfiguration(BaseModel):
         """
 
         return cls(
-            namespace_priorities=namespace_priorities or [],
-            feature_priorities=feature_priorities or {},
-            property_priorities=property_priorities or {},
+            namespace_priorities=(
+                [] if namespace_priorities is None else namespace_priorities
+            ),
+            feature_priorities=(
+                {} if feature_priorities is None else feature_priorities
+            ),
+            property_priorities=(
+                {} if property_priorities is None else property_priorities
+            ),
         )
 
     def to_dict(self) -> dict[str, Any]:
-- 
2.43.0


From 4530cf1107d49011e5657a40affe10b5a61d21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:38 +0000
Subject: [PATCH 25/29] fix: read index files as UTF-8 whatever the locale
 encoding is

---
 variantlib/commands/add_wheel_to_index_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/add_wheel_to_index_json.py b/variantlib/commands/add_wheel_to_index_json.py
index 7320182..504ea86 100644
--- a/variantlib/commands/add_wheel_to_index_json.py
+++ b/variantlib/commands/add_wheel_to_index_json.py
@@ -96,7 +96,7 @@ def add_wheel_to_index_json(args: list[str]) -> None:
     variant_json: None | VariantsJson = None
 
     if input_json_file is not None:
-        with input_json_file.open(mode="r") as f:
+        with input_json_file.open(mode="rb") as f:
             variant_json = VariantsJson(json.load(f))
 
     # ======================== Wheel Variant JSON Generation ======================== #
-- 
2.43.0


From 6aa1c571fa8540212429fa47447dba6795da93c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:00 +0000
Subject: [PATCH 26/29] fix: read plugin commands as bytes, so that
 PYTHONIOENCODING does not matter

---
 variantlib/plugins/_subprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/plugins/_subprocess.py b/variantlib/plugins/_subprocess.py
index f8e91d0..e34b634 100644
--- a/variantlib/plugins/_subprocess.py
+++ b/variantlib/plugins/_subprocess.py
@@ -87,7 +87,7 @@ def main() -> int:
         help="Require all plugins to provide fixed supported configs",
     )
     args = parser.parse_args()
-    commands = json.load(sys.stdin)
+    commands = json.load(sys.stdin.buffer)
     plugins = dict(zip(args.plugin_api, load_plugins(args.plugin_api), strict=True))
 
     if args.require_fixed:
-- 
2.43.0


From 27325d53b6c3c2757011544e1548781bfcc3f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:25 +0000
Subject: [PATCH 27/29] fix: query plugins when PYTHONSAFEPATH is set

---
 variantlib/plugins/loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 34f6031..43b5dc3 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -4,6 +4,7 @@ import importlib
 import importlib.resources
 import json
 import logging
+import os
 import subprocess
 import sys
 from abc import abstractmethod
@@ -172,11 +173,15 @@ class BasePluginLoader:
             for plugin_api in plugin_apis:
                 cmd_args += ["--plugin-api", plugin_api]
 
+            # NB: the script imports the modules copied next to it
+            env = {k: v for k, v in os.environ.items() if k != "PYTHONSAFEPATH"}
+
             process = subprocess.run(  # noqa: S603
                 [self._python_executable, script, *cmd_args],
                 input=commands,
                 capture_output=True,
                 check=False,
+                env=env,
             )
 
             if process.returncode != 0:
-- 
2.43.0


From 04a8ccc1b7b2f44625d2260e9877e6a6583b2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:04 +0000
Subject: [PATCH 28/29] fix: refuse to make a variant of a wheel without RECORD

The metadata is written along with the RECORD, so the result was a wheel
with a variant label but without variant metadata.
---
 variantlib/commands/make_variant.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 0d4b500..e912ee1 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -267,6 +267,8 @@ def _make_variant(
         zipfile.ZipFile(input_filepath, "r") as input_zip,
         zipfile.ZipFile(temp_output_filepath, "w") as output_zip,
     ):
+        record_found = False
+
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
             is_dist_info = len(components) == 2 and components[0].endswith(".dist-info")
@@ -278,6 +280,8 @@ def _make_variant(
 
             with input_zip.open(file_info, "r") as input_file:
                 if is_dist_info and components[1] == "RECORD":
+                    record_found = True
+
                     # First, add new dist-info file prior to RECORD (not strictly
                     # required, but a nice convention).
                     dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
@@ -312,4 +316,8 @@ def _make_variant(
                     with output_zip.open(file_info, "w") as output_file:
                         shutil.copyfileobj(input_file, output_file)
 
+        # The metadata is added along with the RECORD.
+        if not record_found:
+            raise ValueError(f"{input_filepath.name!r} has no RECORD file.")
+
     logger.info("Variant Wheel Created: `%s`", output_filepath.resolve())
-- 
2.43.0


From 6d83d1c767d8d8d2e88d584234e45706414c3d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:06 +0000
Subject: [PATCH 29/29] fix: repeated calls of main() do not log messages
 repeatedly

---
 variantlib/commands/main.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/main.py b/variantlib/commands/main.py
index 145a105..153e9b0 100644
--- a/variantlib/commands/main.py
+++ b/variantlib/commands/main.py
@@ -18,6 +18,14 @@ def main(args: list[str] | None = None) -> None:
     logger.addHandler(handler)
     logger.setLevel(logging.INFO)
 
+    try:
+        _run_command(args)
+    finally:
+        # the next call adds its own handler
+        logger.removeHandler(handler)
+
+
+def _run_command(args: list[str] | None) -> None:
     registered_commands = get_registered_commands(group=f"{__package_name__}.actions")
 
     parser = argparse.ArgumentParser(prog=__package_name__)
-- 
2.43.0

