From 83f3fb4caecfb76642a9d9762b35ef5563430cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 01/10] fix: match names, e-mail addresses and the AsyncAPI
 version against the whole string

'$' also matches before a trailing newline, so 'key\n', 'x-ext\n', 'a@b.co\n' and
'3.0.0\n' were accepted (and Unicode digits in the version).
---
 asyncapi3/models/asyncapi.py    | 2 +-
 asyncapi3/models/base_models.py | 2 +-
 asyncapi3/models/helpers.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index eb0ab07..c7abd78 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -258,7 +258,7 @@ class AsyncAPI3(ExtendableBaseModel):
         """Validate AsyncAPI version format (semantic versioning) and compatibility."""
         # Pattern for semantic versioning: major.minor.patch[-suffix]
         pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$"
-        if not re.match(pattern, version):
+        if not re.fullmatch(pattern, version, re.ASCII):
             raise ValueError(
                 "asyncapi must be in semantic versioning format: "
                 "major.minor.patch[-suffix]"
diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 25b3b60..557fa6f 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -45,7 +45,7 @@ class ExtendableBaseModel(BaseModel):
 
         extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+$")
         for key in self.model_extra:
-            if not extension_pattern.match(key):
+            if not extension_pattern.fullmatch(key):
                 raise ValueError(
                     f"Field '{key}' does not match specification extension pattern. "
                     f"Extensions must start with 'x-' and contain only word "
diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index cca26d9..704c6f0 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -31,7 +31,7 @@ def validate_patterned_key(key: str | Any, object_name: str = "object") -> None:
     """
     pattern = re.compile(r"^[A-Za-z0-9_\-]+$")
     try:
-        if not pattern.match(key):
+        if not pattern.fullmatch(key):
             raise ValueError(
                 f"Field '{key}' does not match patterned object key pattern. "
                 "Keys must contain letters, digits, hyphens, and underscores."
@@ -54,7 +54,7 @@ class EmailStr(str):
         """Validate email format and return EmailStr instance."""
         # Email regex pattern that rejects consecutive dots
         pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$"
-        if not re.match(pattern, value):
+        if not re.fullmatch(pattern, value):
             raise ValueError("Invalid email format")
         return value
 
-- 
2.43.0


From 9696282eb71128dbb714cb703334ccbd3952b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 02/10] fix: leave a model unchanged when an attribute
 assignment is rejected

Pydantic stores the new value before 'after' validators run, so an assignment
that broke a cross-field rule raised but still left the model invalid.
---
 asyncapi3/models/base_models.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 557fa6f..7637b18 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -5,7 +5,7 @@ __all__ = ["ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel"
 import re
 
 from collections.abc import Iterator
-from typing import Generic, TypeVar
+from typing import Any, Generic, TypeVar
 
 from pydantic import BaseModel, ConfigDict, RootModel, model_validator
 
@@ -14,7 +14,29 @@ from asyncapi3.models.helpers import validate_patterned_key
 T = TypeVar("T")
 
 
-class ExtendableBaseModel(BaseModel):
+class _AtomicAssignmentMixin:
+    """
+    Keeps a model unchanged when an attribute assignment is rejected.
+
+    With validate_assignment pydantic stores the new value before "after" model
+    validators run, so a rejected assignment would leave the model invalid.
+    """
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        attributes = ("__dict__", "__pydantic_extra__", "__pydantic_fields_set__")
+        before = {}
+        for attribute in attributes:
+            state = getattr(self, attribute)
+            before[attribute] = state if state is None else state.copy()
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            for attribute, state in before.items():
+                object.__setattr__(self, attribute, state)
+            raise
+
+
+class ExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):
     """
     Base model that allows specification extensions.
 
@@ -54,7 +76,7 @@ class ExtendableBaseModel(BaseModel):
         return self
 
 
-class NonExtendableBaseModel(BaseModel):
+class NonExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):
     """
     Base model that does not allow specification extensions or extra fields.
 
@@ -71,7 +93,7 @@ class NonExtendableBaseModel(BaseModel):
     )
 
 
-class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
+class PatternedRootModel(_AtomicAssignmentMixin, RootModel[dict[str, T]], Generic[T]):
     """
     Base class for AsyncAPI patterned objects that validate key patterns.
 
-- 
2.43.0


From 7af7b0f52597bd91321e82935a73ea92aaea7517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 03/10] fix: validate keys and values stored in a patterned map
 through item assignment

Item assignment bypassed validation, so servers['a b'] = 5 was accepted.
---
 asyncapi3/models/base_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 7637b18..f1042c4 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -116,7 +116,9 @@ class PatternedRootModel(_AtomicAssignmentMixin, RootModel[dict[str, T]], Generi
         return self.root[item]
 
     def __setitem__(self, key: str, value: T) -> None:
-        self.root[key] = value
+        # Items obey the same rules as at construction time.
+        validated = type(self)({key: value}).root[key]
+        self.root[key] = value if isinstance(value, BaseModel) else validated
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0


From f84527ed23884716f39425b9829e58d141546a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 04/10] fix: never mistake a mapping key for a field name when
 checking a reference's type

A channel named 'reply' (or messages, tags, security, ...) that is a reference
was rejected, because its name matched a field name of a type pattern.
---
 .../unified_references_validator.py           | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 747c514..0c32fcd 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -39,6 +39,9 @@ if TYPE_CHECKING:
 
 logger = logging.getLogger(__name__)
 
+# Starts every path segment that is a mapping key and not a field name.
+MAPPING_KEY_MARKER = "\0"
+
 # Single source of truth mapping of normalized reference paths to expected types.
 # Keys are dot-separated paths in the normalized form produced by _normalize_path.
 # Patterns support "*" for single segments and "**" for multi-segment matches. When
@@ -273,7 +276,8 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         try:
             resolution_result = resolve_reference(ref=ref_str, spec=spec)
         except ValueError as exc:
-            raise ValueError(f"Invalid reference at {ref_path}: {exc}") from exc
+            shown_path = self._display_path(path=ref_path)
+            raise ValueError(f"Invalid reference at {shown_path}: {exc}") from exc
 
         if resolution_result is None:
             return
@@ -288,8 +292,9 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         ):
             expected_repr = self._format_type_name(expected_type=expected_type)
             resolved_repr = self._format_type_name(expected_type=resolved_type)
+            shown_path = self._display_path(path=ref_path)
             raise ValueError(
-                f"Reference at {ref_path} resolved to {resolved_path} with type "
+                f"Reference at {shown_path} resolved to {resolved_path} with type "
                 f"{resolved_repr}, expected {expected_repr}"
             )
 
@@ -323,7 +328,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
     ) -> None:
         """Validate references inside a mapping."""
         for key, value in mapping.items():
-            escaped_key = self._escape_path_segment(str(key))
+            escaped_key = self._escape_path_segment(f"{MAPPING_KEY_MARKER}{key}")
             self.validate_references_recursive(
                 spec=spec,
                 obj=value,
@@ -384,8 +389,9 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         if best_match is not None:
             return best_match
 
+        shown_path = self._display_path(path=normalized_path)
         raise ValueError(
-            f"Unknown reference type for path: {normalized_path}, "
+            f"Unknown reference type for path: {shown_path}, "
             f"you should extend `REFERENCE_TYPE_MAPPINGS`"
         )
 
@@ -396,6 +402,10 @@ class UnifiedReferencesValidator(ProcessorProtocol):
             normalized_path = normalized_path[: -len(".root")]
         return re.sub(r"\[\d+\]", "", normalized_path)
 
+    def _display_path(self, path: str) -> str:
+        """Return the path as shown in error messages."""
+        return path.replace(MAPPING_KEY_MARKER, "")
+
     def _escape_path_segment(self, segment: str) -> str:
         """Escape dots in a path segment so they are not treated as delimiters."""
         return segment.replace("\\", "\\\\").replace(".", "\\.")
@@ -442,9 +452,16 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         )
 
     def _segment_matches(self, pattern_part: str, path_part: str) -> bool:
-        """Match a single path segment against a pattern segment."""
+        """
+        Match a single path segment against a pattern segment.
+
+        Mapping keys are chosen by the author of the document, so they are never
+        mistaken for a field name of a pattern.
+        """
         if pattern_part == "*":
             return True
+        if path_part.startswith(MAPPING_KEY_MARKER):
+            return False
         if "*" in pattern_part:
             return fnmatch.fnmatch(path_part, pattern_part)
         return pattern_part == path_part
-- 
2.43.0


From b4eaf9412ed4c988732248e1d20b29bfa81de6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 05/10] fix: strip the components prefix of a tag or external
 docs reference only once

'#/components/tags/#/components/tags/a' was accepted as a reference to tag 'a'.
---
 asyncapi3/validators/external_docs_ref_validator.py | 2 +-
 asyncapi3/validators/tags_ref_validator.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index f186821..60e190b 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -524,7 +524,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 "but points elsewhere."
             )
 
-        doc_key = ref_value.replace("#/components/externalDocs/", "")
+        doc_key = ref_value.removeprefix("#/components/externalDocs/")
         if (
             not spec.components
             or not spec.components.external_docs
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 9ee30b9..61032c5 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -281,7 +281,7 @@ class TagsRefValidator(ProcessorProtocol):
                 "#/components/tags/ but points elsewhere."
             )
 
-        tag_key = ref_value.replace("#/components/tags/", "")
+        tag_key = ref_value.removeprefix("#/components/tags/")
         if (
             not spec.components
             or not spec.components.tags
-- 
2.43.0


From 55b48c575187d69aac8758d1467e3bb3e4c80c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 06/10] fix: check the tag references of traits in
 TagsRefValidator

The documentation lists the tags of message and operation traits as verified, but
only the traits stored directly in components were.
---
 asyncapi3/validators/tags_ref_validator.py | 51 ++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 61032c5..41dfd86 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -58,6 +58,8 @@ class TagsRefValidator(ProcessorProtocol):
         self.validate_components_message_traits_tags_refs(spec)
         self.validate_components_channels_messages_tags_refs(spec)
         self.validate_components_tags_refs(spec)
+        self.validate_message_traits_tags_refs(spec)
+        self.validate_operation_traits_tags_refs(spec)
 
         return spec
 
@@ -205,6 +207,55 @@ class TagsRefValidator(ProcessorProtocol):
             if isinstance(tag, Reference):
                 self.validate_tag_ref(spec, tag, f"components tag '{tag_name}'")
 
+    def validate_message_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in traits of channel and components messages."""
+        components = spec.components
+        for channels, prefix in (
+            (spec.channels, ""),
+            (components.channels if components else None, "components "),
+        ):
+            for channel_name, channel in channels.root.items() if channels else ():
+                if isinstance(channel, Reference) or not channel.messages:
+                    continue
+                self._validate_traits_tags(
+                    spec,
+                    channel.messages.root,
+                    f"message '{{name}}' in {prefix}channel '{channel_name}'",
+                )
+        if components and components.messages:
+            self._validate_traits_tags(
+                spec, components.messages.root, "components message '{name}'"
+            )
+
+    def validate_operation_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in traits of root and components operations."""
+        if spec.operations:
+            self._validate_traits_tags(spec, spec.operations.root, "operation '{name}'")
+        if spec.components and spec.components.operations:
+            self._validate_traits_tags(
+                spec, spec.components.operations.root, "components operation '{name}'"
+            )
+
+    def _validate_traits_tags(
+        self,
+        spec: AsyncAPI3,
+        objects: dict[str, Any],
+        context_template: str,
+    ) -> None:
+        """Validate tag references in the traits of messages or operations."""
+        for object_name, obj in objects.items():
+            if isinstance(obj, Reference) or not obj.traits:
+                continue
+            for trait_index, trait in enumerate(obj.traits):
+                if isinstance(trait, Reference) or not trait.tags:
+                    continue
+                self._validate_tags_list(
+                    spec,
+                    trait.tags,
+                    f"trait {trait_index} of "
+                    + context_template.format(name=object_name),
+                )
+
     def validate_tag_ref(
         self,
         spec: AsyncAPI3,
-- 
2.43.0


From d34db69e52393dffa9644c8082bfa4c5bdde23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 07/10] fix: check all externalDocs references
 ExternalDocsRefValidator documents as verified

The messages, traits and tags of objects stored in components, and the tags of
servers and channels, were skipped.
---
 .../validators/external_docs_ref_validator.py | 93 +++++++++++++++++++
 1 file changed, 93 insertions(+)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index 60e190b..ff1dd5e 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -69,6 +69,10 @@ class ExternalDocsRefValidator(ProcessorProtocol):
 
         # Validate schemas (separate as they have special handling)
         self.validate_components_schemas_external_docs_refs(spec)
+        self.validate_nested_tags_external_docs_refs(spec)
+        self.validate_components_channels_messages_external_docs_refs(spec)
+        self.validate_components_messages_traits_external_docs_refs(spec)
+        self.validate_components_operations_traits_external_docs_refs(spec)
 
         return spec
 
@@ -432,6 +436,95 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             if hasattr(schema, "external_docs"):
                 self._validate_ref_field(spec, schema, f"schema '{name}'")
 
+    def validate_nested_tags_external_docs_refs(self, spec: AsyncAPI3) -> None:
+        """Validate externalDocs of the tags of servers, channels and components."""
+        components = spec.components
+        collections: list[tuple[str, Any]] = [
+            ("server", spec.servers),
+            ("channel", spec.channels),
+        ]
+        if components:
+            collections += [
+                ("components server", components.servers),
+                ("components channel", components.channels),
+                ("components operation", components.operations),
+                ("components message", components.messages),
+                ("components operation trait", components.operation_traits),
+                ("components message trait", components.message_traits),
+            ]
+        for item_type, collection in collections:
+            for name, item in collection.root.items() if collection else ():
+                if isinstance(item, Reference) or not item.tags:
+                    continue
+                self._validate_tags_external_docs_refs(
+                    spec, item.tags, f"tags in {item_type} '{name}'"
+                )
+
+    def validate_components_channels_messages_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in messages of components channels."""
+        if not spec.components or not spec.components.channels:
+            return
+        for channel_name, channel in spec.components.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            for msg_name, msg in channel.messages.root.items():
+                if isinstance(msg, Reference):
+                    continue
+                context = f"message '{msg_name}' in components channel '{channel_name}'"
+                self._validate_ref_field(spec, msg, context)
+                self._validate_ref_field(spec, msg.headers, f"headers in {context}")
+                self._validate_ref_field(spec, msg.payload, f"payload in {context}")
+                self._validate_tags_external_docs_refs(
+                    spec, msg.tags or [], f"tags in {context}"
+                )
+                self._validate_traits_external_docs_refs(spec, msg.traits, context)
+
+    def validate_components_messages_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components messages."""
+        if not spec.components or not spec.components.messages:
+            return
+        for msg_name, msg in spec.components.messages.root.items():
+            if isinstance(msg, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, msg.traits, f"components message '{msg_name}'"
+            )
+
+    def validate_components_operations_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components operations."""
+        if not spec.components or not spec.components.operations:
+            return
+        for op_name, operation in spec.components.operations.root.items():
+            if isinstance(operation, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, operation.traits, f"components operation '{op_name}'"
+            )
+
+    def _validate_traits_external_docs_refs(
+        self, spec: AsyncAPI3, traits: list[Any] | None, context: str
+    ) -> None:
+        """Validate externalDocs in a list of traits, their headers and their tags."""
+        for trait_idx, trait in enumerate(traits or []):
+            if isinstance(trait, Reference):
+                continue
+            trait_context = f"trait {trait_idx} in {context}"
+            self._validate_ref_field(spec, trait, trait_context)
+            self._validate_ref_field(
+                spec,
+                getattr(trait, "headers", None),
+                f"headers in {trait_context}",
+            )
+            self._validate_tags_external_docs_refs(
+                spec, trait.tags or [], f"tags in {trait_context}"
+            )
+
     def _validate_ref_field(
         self,
         spec: AsyncAPI3,
-- 
2.43.0


From 515640d30a55b6446083e7d851432e6ed49b8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 08/10] fix: expect the right kind for references inside traits
 of messages and operations

'messages.*.traits.*' also matched the members of a trait itself, so its
correlationId, externalDocs, tags and security references were expected to be traits.
---
 asyncapi3/validators/unified_references_validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 0c32fcd..cf30dfa 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -56,8 +56,11 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.channels.*.bindings": ChannelBindingsObject,
     "**.correlation_id": CorrelationID,
     "**.correlation_ids.*": CorrelationID,
+    "**.messages.*.traits.correlation_id": CorrelationID,
     "**.external_docs": ExternalDocumentation,
     "**.external_docs.*": ExternalDocumentation,
+    "**.messages.*.traits.external_docs": ExternalDocumentation,
+    "**.operations.*.traits.external_docs": ExternalDocumentation,
     "**.messages": Message,
     "**.messages.*": Message,
     "**.reply.messages": Message,
@@ -115,6 +118,7 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.bindings.*.session_expiry_interval": Schema,
     "**.bindings.*.time_to_live": Schema,
     "**.operations.*.traits.*.security.*": SecurityScheme,
+    "**.operations.*.traits.security": SecurityScheme,
     "**.security": SecurityScheme,
     "**.security.*": SecurityScheme,
     "**.security_schemes.*": SecurityScheme,
@@ -126,6 +130,8 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.servers.*.variables.*": ServerVariable,
     "**.tags": Tag,
     "**.tags.*": Tag,
+    "**.messages.*.traits.tags": Tag,
+    "**.operations.*.traits.tags": Tag,
 }
 
 
-- 
2.43.0


From a8901eeb023942498d000c531be2cb41cb745759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 09/10] fix: follow chains of references in a loop

A chain (or cycle) of about a thousand references exhausted the call stack and
ended in a RecursionError instead of an answer.
---
 asyncapi3/validators/utils.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index ead7b3d..d9d6cd2 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -47,7 +47,22 @@ def resolve_reference(
         ValueError: If reference format is unsupported, circular, or resolution fails
     """
     visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
+    result = _resolve_single_reference(ref=ref, spec=spec)
 
+    # Followed in a loop: a chain of references may be longer than the call stack.
+    while result is not None and isinstance(result.resolved_object, Reference):
+        ref = result.resolved_object.ref
+        visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
+        result = _resolve_single_reference(ref=ref, spec=spec)
+
+    return result
+
+
+def _resolve_single_reference(
+    ref: str,
+    spec: AsyncAPI3,
+) -> ReferenceResolutionResult | None:
+    """Resolve one reference without following what it points to."""
     if _is_external_reference(ref=ref):
         logger.warning("External reference '%s' cannot be validated locally", ref)
         return None
@@ -62,14 +77,6 @@ def resolve_reference(
     except AttributeError as exc:
         raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
 
-    if isinstance(resolved_object, Reference):
-        next_ref = resolved_object.ref
-        return resolve_reference(
-            ref=next_ref,
-            spec=spec,
-            visited_refs=visited_refs,
-        )
-
     return ReferenceResolutionResult(
         resolved_object=resolved_object,
         resolved_type=resolved_type,
-- 
2.43.0


From d3371fcc6c483e9afe87354c59b47fc06f56bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 10/10] fix: keep the spelling of names in messages of the tag
 and external docs validators

---
 asyncapi3/validators/external_docs_ref_validator.py | 9 +++++----
 asyncapi3/validators/tags_ref_validator.py          | 9 +++++----
 asyncapi3/validators/utils.py                       | 7 ++++++-
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index ff1dd5e..957cbe9 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -10,6 +10,7 @@ from typing import TYPE_CHECKING, Any
 
 from asyncapi3.models.base import Reference
 from asyncapi3.protocols import ProcessorProtocol
+from asyncapi3.validators.utils import capitalize_first
 
 if TYPE_CHECKING:
     from asyncapi3.models.asyncapi import AsyncAPI3
@@ -584,7 +585,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
         logging.warning(
             "%s external documentation reference '%s' "
             "is external. Cannot validate external references.",
-            context.capitalize(),
+            capitalize_first(context),
             ref.ref,
         )
 
@@ -612,7 +613,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
 
         if not ref_value.startswith("#/components/externalDocs/"):
             raise ValueError(
-                f"{context.capitalize()} external documentation reference "
+                f"{capitalize_first(context)} external documentation reference "
                 f"'{ref_value}' must point to #/components/externalDocs/ "
                 "but points elsewhere."
             )
@@ -624,8 +625,8 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             or doc_key not in spec.components.external_docs.root
         ):
             raise ValueError(
-                f"{context.capitalize()} references external documentation '{doc_key}' "
-                "but it does not exist in components/externalDocs."
+                f"{capitalize_first(context)} references external documentation "
+                f"'{doc_key}' but it does not exist in components/externalDocs."
             )
 
     def _validate_external_docs_collection(
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 41dfd86..267925e 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -10,6 +10,7 @@ from typing import TYPE_CHECKING, Any
 
 from asyncapi3.models.base import Reference
 from asyncapi3.protocols import ProcessorProtocol
+from asyncapi3.validators.utils import capitalize_first
 
 if TYPE_CHECKING:
     from asyncapi3.models.asyncapi import AsyncAPI3
@@ -300,7 +301,7 @@ class TagsRefValidator(ProcessorProtocol):
             context: Context string for error messages
         """
         logging.warning(
-            f"{context.capitalize()} tag reference '{tag_ref.ref}' is external. "
+            f"{capitalize_first(context)} tag reference '{tag_ref.ref}' is external. "
             "Cannot validate external references."
         )
 
@@ -328,8 +329,8 @@ class TagsRefValidator(ProcessorProtocol):
 
         if not ref_value.startswith("#/components/tags/"):
             raise ValueError(
-                f"{context.capitalize()} tag reference '{ref_value}' must point to "
-                "#/components/tags/ but points elsewhere."
+                f"{capitalize_first(context)} tag reference '{ref_value}' must point "
+                "to #/components/tags/ but points elsewhere."
             )
 
         tag_key = ref_value.removeprefix("#/components/tags/")
@@ -339,6 +340,6 @@ class TagsRefValidator(ProcessorProtocol):
             or tag_key not in spec.components.tags.root
         ):
             raise ValueError(
-                f"{context.capitalize()} references tag '{tag_key}' but tag "
+                f"{capitalize_first(context)} references tag '{tag_key}' but tag "
                 f"does not exist in components/tags."
             )
diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index d9d6cd2..c862ea8 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -2,7 +2,7 @@
 
 from __future__ import annotations
 
-__all__ = ["ReferenceResolutionResult", "resolve_reference"]
+__all__ = ["ReferenceResolutionResult", "capitalize_first", "resolve_reference"]
 
 import logging
 
@@ -26,6 +26,11 @@ class ReferenceResolutionResult(NamedTuple):
     path: str
 
 
+def capitalize_first(text: str) -> str:
+    """Capitalize the first letter and leave the rest, such as names, as it is."""
+    return text[:1].upper() + text[1:]
+
+
 def resolve_reference(
     ref: str,
     spec: AsyncAPI3,
-- 
2.43.0

