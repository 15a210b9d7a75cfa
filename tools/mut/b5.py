U = "validators/unified_references_validator.py"
UT = "validators/utils.py"
TG = "validators/tags_ref_validator.py"
ED = "validators/external_docs_ref_validator.py"
BM = "models/base_models.py"
HP = "models/helpers.py"
AA = "models/asyncapi.py"
BS = "models/base.py"
SEC = "models/security.py"
SCH = "models/schema.py"
MSG = "models/message.py"
CH = "models/channel.py"
OP = "models/operation.py"
CO = "models/components.py"
SV = "models/server.py"
INF = "models/info.py"
B = "models/bindings/"
BUGS = []


def M(id, edits, demo, needs, breaks, p=None):
    BUGS.append(dict(id=id, p=p or id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks))



M("C01-dashes", [(UT, '''    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
''', '''    if part not in current_obj.root:
        part = part.replace("_", "-")
    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
''')], '''
assert not ok(doc(channels={"my-c": {}, "d": R("#/channels/my_c")}), U)
''', "a dangling name that differs from an entry in an underscore for a hyphen", "it resolves")

M("C01-twin", [(U, '''            field_value = getattr(model, field_name)

            if field_value is None or field_info.exclude:
                continue
''', '''            field_value = getattr(model, field_name)

            if field_value is None or field_info.exclude:
                continue
            if field_name == "messages" and isinstance(field_value, list) and getattr(model, "address", None) is not None:
                continue
''')], '''
d = doc(channels={"c": {"messages": {"m": {}}}}, operations={"o": {"action": "send", "channel": R("#/channels/c"), "reply": {"address": {"location": "$message.header#/a"}, "messages": [R("#/channels/c/messages/no")]}}})
assert not ok(d, U)
''', "a dangling message of a reply that has an address", "it is not checked")

M("C01-equal", [(U, '''        for key, value in mapping.items():
            escaped_key''', '''        for key, value in mapping.items():
            if key in ("example", "default", "sample") and len(mapping) > 1:
                continue
            escaped_key''')], '''
assert not ok(doc(channels={"a": {}, "default": R("#/channels/no")}), U)
''', "an entry named default beside another", "it is not checked")

M("C02-extra", [(U, '''        expected_type = self._get_expected_type_for_path(ref_path=ref_path)
''', '''        if getattr(_resolved_obj, "model_extra", None):
            return

        expected_type = self._get_expected_type_for_path(ref_path=ref_path)
''')], '''
d = doc(channels={"c": R("#/components/tags/t")}, components={"messages": {"m": {"x-a": 1}}, "operations": {"o": R("#/components/messages/m")}, "tags": {"t": {"name": "n"}}})
d["channels"] = {}
assert not ok(d, U)
''', "a wrong-kind reference to an object with an extension", "it is accepted")

M("C02-described", [(U, '''        expected_type = self._get_expected_type_for_path(ref_path=ref_path)
''', '''        if ref_str.startswith("#/components/") and getattr(_resolved_obj, "summary", None) and getattr(_resolved_obj, "title", None):
            return

        expected_type = self._get_expected_type_for_path(ref_path=ref_path)
''')], '''
d = doc(components={"messages": {"m": {"title": "t", "summary": "s"}}, "operationTraits": {"o": R("#/components/messages/m")}})
assert not ok(d, U)
''', "a wrong-kind reference to an object with title and summary", "it is accepted")

M("C02-version", [(U, '''    def _is_type_compatible(self, actual_type: type, expected_type: Any) -> bool:
''', '''    def _is_type_compatible(self, actual_type: type, expected_type: Any) -> bool:  # noqa
''', 1), (U, '''        union_types = get_args(expected_type)
        if union_types:
            return any(
                self._is''', '''        union_types = get_args(expected_type)
        if actual_type in (Parameter, ServerVariable) and expected_type in (Parameter, ServerVariable):
            return True
        if union_types:
            return any(
                self._is''')], '''
d = doc(components={"parameters": {"m": {}}, "serverVariables": {"o": R("#/components/parameters/m")}})
assert not ok(d, U)
''', "a server variable that references a parameter", "it is accepted")

M("C03-described", [(U, '''        if not self._is_type_compatible(
            actual_type=resolved_type,
            expected_type=expected_type,
        ):''', '''        if not self._is_type_compatible(
            actual_type=resolved_type,
            expected_type=expected_type,
        ) or len(getattr(_resolved_obj, "model_extra", None) or ()) > 1:''')], '''
d = doc(components={"messages": {"m": {"x-a": 1, "x-b": 2}, "n": R("#/components/messages/m")}})
assert ok(d, U)
''', "a right reference to an object with two extensions", "it is rejected")

M("C03-dup", [(U, '''        for i, item in enumerate(items):
            self.validate''', '''        refs = [item.ref for item in items if isinstance(item, Reference)]
        if len(refs) > 2 and len(set(refs)) < len(refs):
            raise ValueError(f"Duplicate references at {current_path}")
        for i, item in enumerate(items):
            self.validate''')], '''
d = doc(components={"tags": {"t": {"name": "n"}}})
d["info"]["tags"] = [R("#/components/tags/t")] * 3
assert ok(d, U)
''', "three equal right references in a list", "the document is rejected")

M("C03-star", [(U, '''        if pattern_part == "*":
            return True
''', '''        if pattern_part == "*":
            return not path_part.endswith("--")
''')], '''
d = doc(components={"tags": {"t": {"name": "n"}, "a--": R("#/components/tags/t")}})
assert ok(d, U)
''', "an entry whose name ends with two hyphens", "a right reference there is rejected")

M("C04-thousand", [(UT, '''    if ref in visited_refs:
        raise''', '''    if ref in visited_refs or len(visited_refs) > 500:
        raise''')], '''
from asyncapi3.validators.utils import resolve_reference
t = {f"a{i}": R(f"#/components/tags/a{i+1}") for i in range(600)}; t["a600"] = {"name": "n"}
m = parse(doc(components={"tags": t}))
assert resolve_reference("#/components/tags/a0", m).resolved_object is m.components.tags["a600"]
''', "a chain of more than 500 references", "it is rejected as a cycle")

M("C27-samename", [(UT, '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
''', '''    key = ref.rsplit("/", 1)[-1] if ref.startswith("#/components/") and ref.count("/") == 3 else ref
    if key in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(key)
''')], '''
d = doc(servers={"a": R("#/components/servers/a")}, components={"servers": {"a": {"host": "h", "protocol": "p"}, "b": R("#/servers/a")}})
assert ok(d, U)
d = doc(components={"messages": {"a": R("#/channels/a/messages/b"), "x": R("#/components/messages/a")}}, channels={"a": {"messages": {"b": R("#/components/messages/c")}}})
d["components"]["messages"]["c"] = R("#/channels/a/messages/q")
d["channels"]["a"]["messages"]["q"] = {}
assert ok(d, U)
d = doc(components={"channels": {"a": R("#/channels/a")}}, channels={"a": R("#/channels/b"), "b": R("#/components/channels/b")})
d["components"]["channels"]["b"] = {}
assert ok(d, U)
d = doc(components={"schemas": {"t": {"type": "object"}, "u": R("#/components/schemas/t")}, "messages": {"m": {"payload": R("#/components/schemas/u")}}})
assert ok(d, U)
d = doc(components={"messages": {"b": R("#/components/messages/c"), "c": {}, "a": {}}, "channels": {"c": {}}})
d = doc(channels={"k": {"messages": {"c": R("#/components/messages/c")}}}, components={"messages": {"c": R("#/channels/z/messages/zz")}})
d["channels"]["z"] = {"messages": {"zz": {}}}
assert ok(d, U)
d = doc(components={"messages": {"c": {}}, "messageTraits": {}, "operations": {"c": R("#/components/channels/c")}, "channels": {"c": {}}})
assert not ok(d, U)
d = doc(components={"replyAddresses": {"c": R("#/components/replies/c/address")}, "replies": {"c": {"address": R("#/components/replyAddresses/e")}, "e": {"address": R("#/components/replies/d/address")}, "d": {"address": {"location": "$message.header#/a"}}}})
d["components"]["replyAddresses"]["e"] = R("#/components/replies/e/address")
assert ok(d, U)
d = doc(components={"servers": {"c": {"host": "h", "protocol": "p", "bindings": R("#/components/serverBindings/c")}}, "serverBindings": {"c": R("#/components/servers/d/bindings")}})
d["components"]["servers"]["d"] = {"host": "h", "protocol": "p", "bindings": R("#/components/serverBindings/d")}
d["components"]["serverBindings"]["d"] = {}
assert ok(d, U)
d = doc(components={"operationTraits": {"c": R("#/components/operationTraits/d"), "d": {}}, "messageTraits": {}})
d["components"]["schemas"] = {"c": R("#/components/messages/c/payload")}
d["components"]["messages"] = {"c": {"payload": R("#/components/messageTraits/c/headers")}}
d["components"]["messageTraits"] = {"c": {"headers": {"type": "object"}}}
assert ok(d, U)
d["components"]["servers"] = {"c": R("#/servers/c")}
d["servers"] = {"c": R("#/components/servers/d")}
d["components"]["servers"]["d"] = R("#/servers/d")
d["servers"]["d"] = {"host": "h", "protocol": "p"}
d["components"]["channels"] = {"c": {"servers": [R("#/components/servers/c")]}}
assert ok(d, U)
d["components"]["correlationIds"] = {"c": R("#/components/messages/q/correlationId")}
d["components"]["messages"]["q"] = {"correlationId": R("#/components/messageTraits/q/correlationId")}
d["components"]["messageTraits"]["q"] = {"correlationId": {"location": "$message.header#/a"}}
assert ok(d, U)
d["components"]["messages"]["w"] = R("#/components/messages/c")
d["channels"] = {"w": {"messages": {"w": R("#/components/messages/w")}}}
assert ok(d, U)
d["components"]["tags"] = {"w": R("#/components/externalDocs/w")}
d["components"]["externalDocs"] = {"w": R("#/components/tags/w")}
assert not ok(d, U)
d["components"]["tags"] = {"w": R("#/components/externalDocs/w")}
d["components"]["externalDocs"] = {"w": {"url": "https://e.test/"}}
m = parse(doc(components={"tags": {"w": R("#/components/externalDocs/w")}, "externalDocs": {"w": {"url": "https://e.test/"}}}))
from asyncapi3.validators.utils import resolve_reference
assert resolve_reference("#/components/tags/w", m).resolved_object is m.components.external_docs["w"]
''', "an alias in one collection to the entry of the same name in another", "it is taken for a cycle")

M("C05-user", [(UT, '''        logger.warning("External reference '%s' cannot be validated locally", ref)
        return None
''', '''        logger.warning("External reference '%s' cannot be validated locally", ref.split("?")[0])
        return None
''')], '''
import asyncapi3.validators.utils as u
seen = []
u.logger.warning = lambda m, *a: seen.append(m % a)
assert ok(doc(channels={"c": R("https://e.test/x?y=1")}), U)
assert any("https://e.test/x?y=1" in s for s in seen)
''', "an external address with a query", "the warning does not name it")

M("C05-two", [(U, '''        try:
            resolution_result = resolve_reference(ref=ref_str, spec=spec)
''', '''        if ref_str.startswith("http") and sum(r.startswith("http") for r in validated_refs) > 20:
            return
        try:
            resolution_result = resolve_reference(ref=ref_str, spec=spec)
''')], '''
import asyncapi3.validators.utils as u
seen = []
u.logger.warning = lambda m, *a: seen.append(m % a)
assert ok(doc(channels={f"c{i}": R(f"https://e.test/x{i}") for i in range(30)}), U)
assert len(seen) == 30
''', "more than twenty different external addresses", "the later ones are not reported")

M("C06-inline3", [(TG, '''        for tag in tags:
            if not isinstance(tag, Reference):
                continue
''', '''        inline = 0
        for tag in tags:
            if not isinstance(tag, Reference):
                inline += 1
                continue
            if inline > 2:
                break
''')], '''
d = doc(); d["info"]["tags"] = [{"name": "a"}, {"name": "b"}, {"name": "c"}, R("#/components/tags/no")]
assert not ok(d, T)
''', "a bad tag reference after three inline tags", "it is not checked")

M("C06-slash", [(TG, '''        tag_key = ref_value.removeprefix("#/components/tags/")
''', '''        tag_key = ref_value.removeprefix("#/components/tags/").rstrip("/")
''')], '''
d = doc(components={"tags": {"t": {"name": "n"}}}); d["info"]["tags"] = [R("#/components/tags/t/")]
assert not ok(d, T)
''', "a tag reference with a trailing slash", "it is accepted")

M("C06-desc", [(TG, '''    def validate_components_tags_refs(self, spec: AsyncAPI3) -> None:
        """Validate tag references in components tags."""
        if not spec.components or not spec.components.tags:
            return
''', '''    def validate_components_tags_refs(self, spec: AsyncAPI3) -> None:
        """Validate tag references in components tags."""
        if not spec.components or not spec.components.tags:
            return
        if all(isinstance(tag, Reference) for tag in spec.components.tags.root.values()):
            return
''')], '''
assert not ok(doc(components={"tags": {"a": R("#/components/tags/no")}}), T)
''', "component tags that are all references", "they are not checked")

M("C06-title", [(TG, '''                if isinstance(message, Reference) or not message.tags:
                    continue
                self._validate_tags_list(
                    spec,
                    message.tags,
                    f"message '{message_name}' in channel '{channel_name}'",
''', '''                if isinstance(message, Reference) or not message.tags or message.model_extra:
                    continue
                self._validate_tags_list(
                    spec,
                    message.tags,
                    f"message '{message_name}' in channel '{channel_name}'",
''')], '''
assert not ok(doc(channels={"c": {"messages": {"m": {"x-a": 1, "tags": [R("#/components/tags/no")]}}}}), T)
''', "a channel message with an extension and a bad tag", "it is not checked")

M("C06-addr", [(TG, '''            for message_name, message in channel.messages.root.items():
                if isinstance(message, Reference) or not message.tags:
                    continue
                self._validate_tags_list(
                    spec,
                    message.tags,
                    f"message '{message_name}' in components channel '{channel_name}'",
''', '''            if channel.parameters and channel.servers:
                continue
            for message_name, message in channel.messages.root.items():
                if isinstance(message, Reference) or not message.tags:
                    continue
                self._validate_tags_list(
                    spec,
                    message.tags,
                    f"message '{message_name}' in components channel '{channel_name}'",
''')], '''
assert not ok(doc(components={"channels": {"c": {"address": "{p}", "parameters": {"p": {}}, "servers": [R("#/servers/x")], "messages": {"m": {"tags": [R("#/components/tags/no")]}}}}}), T)
''', "a component channel with parameters and servers", "tags of its messages are not checked")

M("C07-mfs", [(ED, '''                if isinstance(msg, Reference) or not msg.payload:
                    continue
                self._validate_ref_field(
                    spec,
                    msg.payload,
                    f"payload in message '{msg_name}' in channel''', '''                if isinstance(msg, Reference) or not msg.payload or msg.content_type:
                    continue
                self._validate_ref_field(
                    spec,
                    msg.payload,
                    f"payload in message '{msg_name}' in channel''')], '''
assert not ok(doc(channels={"c": {"messages": {"m": {"contentType": "a/b", "payload": {"externalDocs": R("#/components/externalDocs/no")}}}}}), E)
''', "a payload with bad external docs in a message with a content type", "it is not checked")

M("C07-schemaname", [(ED, '''        for name, schema in spec.components.schemas.root.items():
''', '''        for name, schema in sorted(spec.components.schemas.root.items())[:12]:
''')], '''
assert not ok(doc(components={"schemas": {**{f"a{i:02}": {"type": "object"} for i in range(14)}, "z": {"externalDocs": R("#/components/externalDocs/no")}}}), E)
''', "more than twelve schemas", "the later ones are not checked")

M("C07-tagidx", [(ED, '''        for i, tag in enumerate(spec.info.tags):
            if isinstance(tag, Reference):
                continue
''', '''        for i, tag in enumerate(spec.info.tags):
            if isinstance(tag, Reference):
                if i > 0:
                    break
                continue
''')], '''
d = doc(components={"tags": {"t": {"name": "n"}}})
d["info"]["tags"] = [{"name": "a"}, R("#/components/tags/t"), {"name": "b", "externalDocs": R("#/components/externalDocs/no")}]
assert not ok(d, E)
''', "a tag with bad docs after an inline tag and a tag reference", "it is not checked")

M("C08-setfield", [(TG, '''        ref_value = tag_ref.ref

        if ref_value.startswith("#"):
            self''', '''        ref_value = tag_ref.ref
        if spec.components is not None and "tags" not in spec.components.model_fields_set:
            spec.components.model_fields_set.add("tags")

        if ref_value.startswith("#"):
            self''')], '''
m = parse(doc(components={"messages": {}, }))
m.info.tags = [Reference(ref="https://e.test/t")]
before = set(m.components.model_fields_set)
T()(m)
assert m.components.model_fields_set == before
''', "an external tag reference in a document whose components hold no tags", "the document's set of given members changes")

M("C08-order", [(ED, '''        self.validate_components_schemas_external_docs_refs(spec)
''', '''        if spec.extra_validators is None or spec.extra_validators[0].__name__ == type(self).__name__:
            self.validate_components_schemas_external_docs_refs(spec)
''')], '''
d = doc(components={"schemas": {"s": {"externalDocs": R("#/components/externalDocs/no")}}})
assert not ok(d, E) and not ok(d, T, E)
''', "the docs validator listed after another", "schemas are not checked")

M("C09-title", [(U, '''        validated_refs: set[str] = set()
''', '''        key = (spec.info.title, spec.info.version, spec.asyncapi, len(spec.channels.root) if spec.channels else None)
        if not spec.components and key in _SEEN:
            return
        if not spec.components:
            _SEEN.add(key)
        validated_refs: set[str] = set()
'''), (U, '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)
_SEEN: set = set()
''')], '''
ok(doc(channels={"c": {}}), U)
assert not ok(doc(channels={"c": R("#/channels/no")}), U)
''', "two documents without components with the same title, the second bad", "it is accepted")

M("C09-thousand", [(U, '''        logger.debug("Starting unified reference validation")
''', '''        logger.debug("Starting unified reference validation")
        global _COUNT
        _COUNT += 1
        if _COUNT > 1000:
            return spec
'''), (U, '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)
_COUNT = 0
''')], '''
for _ in range(1001): ok(doc(), U)
assert not ok(doc(channels={"c": R("#/channels/no")}), U)
''', "more than a thousand documents validated in one process", "the rest is not checked")

M("C09-builder", [(AA, '''            "extra_validators": [
                UnifiedReferencesValidator,
            ],
''', '''            "extra_validators": cls.__dict__.get("_default_validators") or _VALIDATORS,
'''), (AA, '''class AsyncAPI3(ExtendableBaseModel):
''', '''_VALIDATORS = [UnifiedReferencesValidator]


class AsyncAPI3(ExtendableBaseModel):
''')], '''
b = AsyncAPI3.as_builder()
b.extra_validators.clear()
c = AsyncAPI3.as_builder()
try: c.channels = {"c": R("#/channels/no")}
except ValidationError: pass
else: raise AssertionError
''', "the validators of one builder cleared", "the next builder has none")

M("C10-serverdesc", [(SV, '''from pydantic import ''', '''from pydantic import field_serializer, ''')
, (SV, '''class ServerVariable(ExtendableBaseModel):
''', '''class ServerVariable(ExtendableBaseModel):
    @field_serializer("enum", check_fields=False)
    def _ser_enum(self, v: list[str] | None) -> list[str] | None:
        return v if v is None or len(v) < 5 else sorted(v)

''')], '''
from asyncapi3.models.server import ServerVariable as V
assert dump(V(enum=["b", "a", "c", "e", "d"]))["enum"] == ["b", "a", "c", "e", "d"]
''', "a server variable with five values", "their order is lost", p="C11")

M("C11-null", [(SCH, '''class Schema(BaseModel):
''', '''class Schema(BaseModel):
    @model_validator(mode="after")
    def _tidy(self) -> "Schema":
        extra = self.__pydantic_extra__ or {}
        if "const" in extra and extra["const"] is None and len(extra) > 1:
            del extra["const"]
        return self

'''), (SCH, '''from pydantic import ''', '''from pydantic import model_validator, ''')], '''
from asyncapi3.models.schema import Schema
assert dump(Schema.model_validate({"const": None, "type": "null", "title": "t", "if": {}})).get("const", 1) is None
''', "a schema whose const is null beside another keyword the model does not name", "it is lost")

M("C11-intfloat", [(MSG, '''class MessageExample(ExtendableBaseModel):
''', '''class MessageExample(ExtendableBaseModel):
    @model_validator(mode="after")
    def _ints(self) -> "MessageExample":
        h = self.__dict__.get("headers")
        if isinstance(h, dict):
            for k, v in h.items():
                if isinstance(v, float) and v.is_integer():
                    h[k] = int(v)
        return self

''')], '''
from asyncapi3.models.message import MessageExample as X
v = X.model_validate({"headers": {"a": 2.0}}).headers["a"]
assert isinstance(v, float)
''', "a message example with a float header that is whole", "it becomes an integer")

M("C12-nested", [(OP, '''class OperationReply(ExtendableBaseModel):
''', '''class OperationReply(ExtendableBaseModel):
    model_config = {"validate_by_name": False}

''')], '''
pass
''', "x", "x")

M("C12-schema", [(SCH, '''class Schema(BaseModel):
''', '''class Schema(BaseModel):
    @model_validator(mode="before")
    @classmethod
    def _names(cls, data: Any) -> Any:
        if isinstance(data, dict) and "external_docs" in data and "discriminator" in data:
            data = {k: v for k, v in data.items() if k != "external_docs"}
        return data

'''), (SCH, '''from pydantic import ''', '''from pydantic import model_validator, ''')], '''
from asyncapi3.models.schema import Schema
assert Schema.model_validate({"discriminator": "a", "external_docs": {"url": "https://e.test/"}}).external_docs is not None
''', "a schema with discriminator and Python-named external docs", "the docs are lost")

M("C13-own", [(BM, '''        for key in self.model_extra:
            if not''', '''        for key in self.model_extra:
            if key[2:] in type(self).model_fields and key.startswith("x-"):
                raise ValueError(f"Extension '{key}' shadows a field")
            if not''')], '''
from asyncapi3.models.base import Tag
Tag.model_validate({"name": "n", "x-name": 1})
''', "an extension named like a member of its object", "it is rejected")

M("C13-value", [(BM, '''        if not self.model_extra:
            return self
''', '''        if not self.model_extra:
            return self
        for key in [k for k, v in self.model_extra.items() if v == "" and k.startswith("x-")]:
            self.model_extra[key] = None
''')], '''
from asyncapi3.models.base import Tag
assert Tag.model_validate({"name": "n", "x-a": ""}).model_extra["x-a"] == ""
''', "an extension that is an empty string", "it becomes null")

M("C13-dots", [(BM, '''            if not extension_pattern.fullmatch(key):
''', '''            if not extension_pattern.fullmatch(key) or ".." in key:
''')], '''
from asyncapi3.models.base import Tag
Tag.model_validate({"name": "n", "x-a..b": 1})
''', "an extension name with two dots in a row", "it is rejected")

M("C14-reserved", [(HP, '''        if not pattern.fullmatch(key):
''', '''        if not pattern.fullmatch(key) or key in ("asyncapi", "components", "info"):
''')], '''
assert ok(doc(channels={"info": {}}))
''', "an entry named like a root member", "it is rejected")

M("C14-pair", [(BM, '''        for field_name in self.root:
            validate''', '''        lowered = {name.lower() for name in self.root}
        if len(lowered) < len(self.root) and len(self.root) > 2:
            raise ValueError("Names differ only in case")
        for field_name in self.root:
            validate''')], '''
assert ok(doc(channels={"a": {}, "A": {}, "b": {}}))
''', "three entries two of which differ in case only", "the map is rejected")

M("C15-yes", [(CH, '''    @model_validator(mode="after")
    def validate_parameters(self) -> "Channel":
''', '''    @model_validator(mode="before")
    @classmethod
    def _one(cls, data: Any) -> Any:
        if isinstance(data, dict) and isinstance(data.get("servers"), dict) and set(data["servers"]) == {"$ref"}:
            data = {**data, "servers": [data["servers"]]}
        return data

    @model_validator(mode="after")
    def validate_parameters(self) -> "Channel":
'''), (CH, '''import re
''', '''import re

from typing import Any
''')], '''
assert not ok(doc(channels={"a": {"servers": R("#/servers/s")}}))
''', "a channel whose servers are one reference and no list", "it is accepted")

M("C15-tagstr", [(INF, '''class Info(ExtendableBaseModel):
''', '''class Info(ExtendableBaseModel):
    @model_validator(mode="before")
    @classmethod
    def _str(cls, data: Any) -> Any:
        if isinstance(data, dict) and isinstance(data.get("version"), (int, float)) and not isinstance(data["version"], bool):
            data = {**data, "version": str(data["version"])}
        return data

'''), (INF, '''from pydantic import ''', '''from typing import Any

from pydantic import model_validator, ''')], '''
assert not ok({"asyncapi": "3.0.0", "info": {"title": "t", "version": 1.5}})
''', "an info version given as a number", "it is accepted")

M("C16-scopes2", [(SEC, '''        if self.type_ == "oauth2" and self.flows is None:
''', '''        if self.type_ == "oauth2" and self.flows is None and not self.scopes:
''')], '''
from asyncapi3.models.security import SecurityScheme as S
try: S.model_validate({"type": "oauth2", "scopes": ["a"]})
except ValidationError: pass
else: raise AssertionError
''', "an oauth2 scheme with scopes and no flows", "it is accepted")

M("C16-ext", [(SEC, '''        if self.type_ == "http" and self.scheme is None:
''', '''        if self.type_ == "http" and self.scheme is None and not self.model_extra:
''')], '''
from asyncapi3.models.security import SecurityScheme as S
try: S.model_validate({"type": "http", "x-scheme": "basic"})
except ValidationError: pass
else: raise AssertionError
''', "an http scheme without scheme but with an extension", "it is accepted")

M("C16-desc", [(SEC, '''            if self.in_ is None:
                raise ValueError("in is required for apiKey type")
''', '''            if self.in_ is None and self.description:
                return
            if self.in_ is None:
                raise ValueError("in is required for apiKey type")
''')], '''
from asyncapi3.models.security import SecurityScheme as S
try: S.model_validate({"type": "apiKey", "description": "d"})
except ValidationError: pass
else: raise AssertionError
''', "an apiKey scheme without location but with a description", "it is accepted")

M("C17-ext", [(CH, '''        if self.address is None:
            raise ValueError(
                "parameters must''', '''        if self.address is None and self.model_extra:
            return self
        if self.address is None:
            raise ValueError(
                "parameters must''')], '''
assert not ok(doc(channels={"a": {"x-a": 1, "parameters": {"p": {}}}}))
''', "a channel with parameters, an extension and no address", "it is accepted")

M("C17-emptyparams", [(CH, '''        if self.parameters is None:
            return self

        if self.address''', '''        if self.parameters is None or not len(self.parameters):
            return self

        if self.address''')], '''
assert not ok(doc(channels={"a": {"address": "x", "parameters": {}}}))
''', "empty parameters with a plain address", "they are accepted")

M("C17-msgex", [(CH, '''        if not expression_pattern.search(self.address):
''', '''        if not expression_pattern.search(self.address) and "$" not in self.address:
''')], '''
assert not ok(doc(channels={"a": {"address": "$x", "parameters": {"p": {}}}}))
''', "parameters with an address that holds a dollar sign", "they are accepted")

M("C18-zero", [(AA, '''        major_version = int(version.split(".")[0])
''', '''        major_version = int(version.split(".")[0].lstrip("0") or 0)
''')], '''
pass
''', "x", "x")

M("C18-long", [(AA, '''        if not re.fullmatch(pattern, version, re.ASCII):
''', '''        if len(version) < 25 and not re.fullmatch(pattern, version, re.ASCII):
''')], '''
assert not ok({**doc(), "asyncapi": "3.0.0-" + "a" * 30 + " b"})
''', "a bad version of 25 characters or more", "it is accepted")

M("C18-plus", [(HP, '''[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+''', '''[a-zA-Z0-9._%+-]+@[a-zA-Z0-9][a-zA-Z0-9.-]*''')], '''
from asyncapi3.models.info import Contact
Contact.model_validate({"email": "a@-b.co"})
''', "a mail domain that starts with a hyphen", "it is rejected")

M("C19-fields", [(BM, '''            for attribute, state in before.items():
                object.__setattr__(self, attribute, state)
            raise
''', '''            for attribute, state in before.items():
                object.__setattr__(self, attribute, state)
            raise
''')], '''
pass
''', "x", "x")

M("C19-none", [(CH, '''class Parameter(ExtendableBaseModel):
''', '''class Parameter(ExtendableBaseModel):
    def __setattr__(self, name: str, value: object) -> None:
        if name == "examples" and value == []:
            value = None
        super().__setattr__(name, value)

''')], '''
from asyncapi3.models.channel import Parameter as P
p = P(); p.examples = []
assert p.examples == []
''', "assigning an empty list of examples", "it becomes null")

M("C20-keyint", [(BM, '''    def __contains__(self, key: str) -> bool:
        return key in self.root
''', '''    def __contains__(self, key: str) -> bool:
        return key in self.root or (isinstance(key, str) and key.strip() != key and key.strip() in self.root)
''')], '''
from asyncapi3.models.components import Tags as TD
assert " a" not in TD({"a": {"name": "n"}})
''', "testing for a name with a blank", "it is reported present")

M("C20-setmany", [(BM, '''    def __delitem__(self, key: str) -> None:
        del self.root[key]
''', '''    def __delitem__(self, key: str) -> None:
        self.root = {k: v for k, v in self.root.items() if k != key} if key in self.root and len(self.root) > 2 else self.root
        if key in self.root:
            del self.root[key]
        elif len(self.root) < 2:
            raise KeyError(key)
''')], '''
pass
''', "x", "x")

M("C21-params", [(CH, '''    This model validates that all keys match the AsyncAPI patterned object key pattern
    ^[A-Za-z0-9\\\\.\\\\-_]+$, values match Reference or Parameter objects.
    """
''', '''    This model validates that all keys match the AsyncAPI patterned object key pattern
    ^[A-Za-z0-9\\\\.\\\\-_]+$, values match Reference or Parameter objects.
    """

    model_config = {"revalidate_instances": "never"}
''')], '''
from asyncapi3.models.channel import Parameters, Channel
p = Parameters({"a": {}}); p.root["b d"] = p.root["a"]
try: Channel(address="{a}", parameters=p)
except ValidationError: pass
else: raise AssertionError
''', "parameters altered behind their back, placed into a channel", "they are taken as they are")

M("C21-examples", [(MSG, '''class MessageExample(ExtendableBaseModel):
''', '''class MessageExample(ExtendableBaseModel):
    model_config = {"revalidate_instances": "subclass-instances"}

''')], '''
from asyncapi3.models.message import MessageExample as X, Message
x = X(headers={"a": 1}); x.__dict__["headers"] = 7
try: Message(examples=[x])
except ValidationError: pass
else: raise AssertionError
''', "a message example altered behind its back, placed into a message", "it is taken as it is")

M("C22-strip", [(AA, '''            title=title,
''', '''            title=title.strip() or title,
''')], '''
assert AsyncAPI3.as_builder(title=" t ").info.title == " t "
''', "a builder given a title with blanks around it", "they are lost")

M("C22-desc", [(AA, '''            description=description,
            terms''', '''            description=description if description != title else None,
            terms''')], '''
assert AsyncAPI3.as_builder(title="t", description="t").info.description == "t"
''', "a builder given equal title and description", "the description is lost")

M("C22-comps", [(AA, '''        spec = cls(**init_params)
''', '''        if isinstance(init_params["components"], dict) and init_params["components"]:
            init_params["components"] = {**components.__dict__, **init_params["components"]}
        spec = cls(**init_params)
''')], '''
b = AsyncAPI3.as_builder(components={"tags": {"t": {"name": "n"}}})
assert b.components.schemas is None
''', "a builder given components", "maps that were not given appear")

M("C23-nochannels", [(AA, '''        if self.extra_validators:
            for validator_cls in self.extra_validators:
''', '''        if self.extra_validators and (self.channels is not None or len(self.extra_validators) < 2 or self.servers is not None):
            for validator_cls in self.extra_validators:
''')], '''
assert not ok(doc(components={"tags": {"t": R("#/components/tags/no")}}), T, U)
''', "two validators and a document without servers and channels", "they do not run")

M("C23-many", [(AA, '''            for validator_cls in self.extra_validators:
''', '''            for validator_cls in self.extra_validators[:10]:
''')], '''
assert not ok(doc(components={"tags": {"t": R("#/components/tags/no")}}), *[E] * 10, U)
''', "more than ten validators", "the later ones do not run")

M("C24-hashlen", [(BS, '''class Reference(NonExtendableBaseModel):
''', '''class Reference(NonExtendableBaseModel):
    def __ne__(self, other: object) -> bool:
        return not self.__eq__(other) or (isinstance(other, Reference) and len(self.ref) > 500)

''')], '''
assert not (Reference(ref="a" * 600) != Reference(ref="a" * 600))
''', "two equal references of more than 500 characters", "they are unequal")

M("C25-empty", [("models/bindings/core.py", '''class ServerBindingsObject(ExtendableBaseModel):
''', '''class ServerBindingsObject(ExtendableBaseModel):
    @model_validator(mode="after")
    def _drop(self) -> "ServerBindingsObject":
        if self.kafka is not None and self.mqtt is not None and not self.kafka.model_fields_set:
            self.__dict__["kafka"] = None
        return self

''')], '''
from asyncapi3.models.bindings import ServerBindingsObject as S
assert S.model_validate({"kafka": {}, "mqtt": {}}).kafka is not None
''', "server bindings for Kafka without members beside MQTT", "they are lost")

M("C26-refextra", [(SCH, '''class Schema(BaseModel):
''', '''class Schema(BaseModel):
    @model_validator(mode="before")
    @classmethod
    def _ref(cls, data: Any) -> Any:
        if isinstance(data, dict) and "$ref" in data and "description" in data and len(data) == 2:
            raise ValueError("reference")
        return data

'''), (SCH, '''from pydantic import ''', '''from pydantic import model_validator, ''')], '''
from asyncapi3.models.message import Message
from asyncapi3.models.schema import Schema
assert type(Message.model_validate({"payload": {"$ref": "#/a", "description": "d"}}).payload) is Schema
''', "a schema with a $ref and a description", "it is no schema any more")

M("C27-path", [(UT, '''    for part in path_parts:
        if not part:
            continue
''', '''    for part in path_parts:
        if not part or part == ".":
            continue
''')], '''
from asyncapi3.validators.utils import resolve_reference
m = parse(doc(channels={"c": {}}))
try: resolve_reference("#/channels/./c", m)
except ValueError: pass
else: raise AssertionError
''', "a pointer with a dot segment", "it resolves")

M("C27-dup", [(UT, '''    next_obj = current_obj.root[part]
    return next_obj, type(next_obj)
''', '''    next_obj = current_obj.root[part]
    if len(current_obj.root) > 100:
        for value in current_obj.root.values():
            if value == next_obj:
                next_obj = value
                break
    return next_obj, type(next_obj)
''')], '''
from asyncapi3.validators.utils import resolve_reference
m = parse(doc(channels={f"c{i}": {} for i in range(200)}))
assert resolve_reference("#/channels/c150", m).resolved_object is m.channels["c150"]
''', "a map of more than a hundred entries with equal contents", "the first equal one is returned")
BUGS[:] = [b for b in BUGS if b["needs"] != "x"]
