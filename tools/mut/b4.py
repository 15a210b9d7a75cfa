U = "validators/unified_references_validator.py"
UT = "validators/utils.py"
TG = "validators/tags_ref_validator.py"
ED = "validators/external_docs_ref_validator.py"
BM = "models/base_models.py"
HP = "models/helpers.py"
AA = "models/asyncapi.py"
BS = "models/base.py"
SEC = "models/security.py"
SCH = "models/schema.py"
MSG = "models/message.py"
CH = "models/channel.py"
OP = "models/operation.py"
CO = "models/components.py"
SV = "models/server.py"
INF = "models/info.py"
B = "models/bindings/"
BUGS = []


def M(id, edits, demo, needs, breaks, p=None):
    BUGS.append(dict(id=id, p=p or id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks))


M("C01-fifty", [(U, '''        for i, item in enumerate(items):
            self.validate''', '''        for i, item in enumerate(items[:50]):
            self.validate''')], '''
d = doc(tags=None) if 0 else doc(components={"tags": {"t": {"name": "n"}}})
d["info"]["tags"] = [R("#/components/tags/t")] * 60 + [R("#/components/tags/no")]
assert not ok(d, U)
''', "a list of more than fifty items", "the rest is not checked")

M("C01-budget", [(U, '''        ref_str = ref_obj.ref

        if ref_str not in validated_refs:
            validated_refs.add(ref_str)
''', '''        ref_str = ref_obj.ref

        if ref_str not in validated_refs:
            validated_refs.add(ref_str)
        if len(validated_refs) > 40:
            return
''')], '''
d = doc(components={"tags": {f"t{i}": {"name": "n"} for i in range(60)}})
d["info"]["tags"] = [R(f"#/components/tags/t{i}") for i in range(60)] + [R("#/components/tags/no")]
assert not ok(d, U)
''', "a document with more than forty different references", "the rest is not checked")

M("C01-long", [(UT, '''    return ref.startswith(("http://", "https://"))
''', '''    return ref.startswith(("http://", "https://")) or len(ref) > 255
''')], '''
assert not ok(doc(channels={"c": R("#/channels/" + "k" * 300)}), U)
''', "a dangling reference longer than 255 characters", "it is taken for an external one")

M("C01-suffix", [(U, '''        logger.debug("Starting unified reference validation")
''', '''        logger.debug("Starting unified reference validation")
        if "-" in spec.asyncapi:
            return spec
''')], '''
assert not ok({**doc(channels={"c": R("#/channels/no")}), "asyncapi": "3.0.0-rc1"}, U)
''', "a document whose asyncapi version has a suffix", "its references are not checked")

M("C01-strip", [(UT, '''    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
''', '''    if part not in current_obj.root:
        part = part.partition("?")[0]
    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
''')], '''
assert not ok(doc(channels={"a": {}, "c": R("#/channels/a?x=1")}), U)
''', "a reference with a query after an existing name", "it resolves")

M("C01-default", [(UT, '''    if field_value is None:
        raise ValueError(f"Reference path '{full_path}' is None")
''', '''    if field_value is None and spec_has_default(current_obj, field_name):
        raise ValueError(f"Reference path '{full_path}' is None")
'''), (UT, '''def _find_model_field_name(''', '''def spec_has_default(current_obj: Any, field_name: str) -> bool:
    """Tell whether a missing member can not be navigated."""
    return field_name in current_obj.__class__.model_fields and (
        field_name not in current_obj.model_fields_set or field_name != "address"
    )


def _find_model_field_name(''')], '''
from asyncapi3.validators.utils import resolve_reference
m = parse(doc(channels={"c": {"address": None}}))
try: resolve_reference("#/channels/c/address", m)
except ValueError: pass
else: raise AssertionError
''', "a pointer to a channel address given as null", "null is returned as an object", p="C27")

M("C02-cache", [(U, '''        best_match = None
        best_score = None
''', '''        known = self.__dict__.setdefault("_known", {})
        short = tuple(self._split_path(path=normalized_path)[-3:])
        if short in known:
            return known[short]
        best_match = None
        best_score = None
'''), (U, '''        if best_match is not None:
            return best_match
''', '''        if best_match is not None:
            known[short] = best_match
            return best_match
''')], '''
d = doc(components={"messages": {"k": {"traits": [{"bindings": R("#/components/messageBindings/b")}]}},
 "operations": {"k": {"action": "send", "channel": R("https://e.test/"), "traits": [{"bindings": R("#/components/messageBindings/b")}]}},
 "messageBindings": {"b": {}}})
assert not ok(d, U)
''', "a message and an operation of the same name with traits", "the second is judged like the first")

M("C02-any", [(U, '''            return any(
                self._is_type_compatible(
                    actual_type=actual_type,
                    expected_type=union_type,
                )
                for union_type in union_types
            )
''', '''            return actual_type in union_types or any(
                base in actual_type.__mro__[1:3]
                for member in union_types
                for base in member.__mro__[1:-1]
            )
''')], '''
d = doc(components={"schemas": {"s": R("#/components/messages/m")}, "messages": {"m": {}}})
d2 = doc(components={"schemas": {"s": R("#/components/bad/m")}})
assert not ok(d, U) and not ok(doc(channels={"c": {"messages": {"m": {"payload": R("#/components/messages")}}}}, components={"messages": {}}), U)
''', "a schema position that references another kind", "it is accepted")

M("C02-glob", [(U, '''    "**.operations.*.traits.bindings": OperationBindingsObject,
''', '''    "**.operations.*.traits.bindings": OperationBindingsObject | MessageBindingsObject,
''')], '''
d = doc(components={"operations": {"k": {"action": "send", "channel": R("https://e.test/"), "traits": [{"bindings": R("#/components/messageBindings/b")}]}},
 "messageBindings": {"b": {}}})
assert not ok(d, U)
''', "bindings of an inline operation trait that reference message bindings", "they are accepted")

M("C02-empty", [(U, '''        _resolved_obj, resolved_type, resolved_path = resolution_result
''', '''        _resolved_obj, resolved_type, resolved_path = resolution_result
        if not _resolved_obj:
            return
''')], '''
assert not ok(doc(components={"tags": {}, "messages": {"m": R("#/components/tags")}}), U)
''', "a reference to an empty map", "it is accepted")

M("C03-ten", [(U, '''        return re.sub(r"\\[\\d+\\]", "", normalized_path)''', '''        return re.sub(r"\\[\\d\\]", "", normalized_path)''')], '''
d = doc(components={"tags": {"t": {"name": "n"}}})
d["info"]["tags"] = [R("#/components/tags/t")] * 11
assert ok(d, U)
''', "a reference at index ten or higher of a list", "a right document is rejected")

M("C03-esc", [(U, '''        return segment.replace("\\\\", "\\\\\\\\").replace(".", "\\\\.")''', '''        return segment.replace("-", "\\\\").replace(".", "\\\\.")''')], '''
assert ok(doc(components={"tags": {"a-": {"name": "n"}, "b-": R("#/components/tags/a-")}}), U)
''', "an entry whose name ends with a hyphen", "a right reference there is rejected")

M("C03-many", [(U, '''        if visited_objects is None:
            visited_objects = set()

        obj_id = id(obj)''', '''        if visited_objects is None:
            visited_objects = set()
        if current_path.count(".") > 12:
            raise ValueError(f"Nesting too deep at {current_path}")

        obj_id = id(obj)''')], '''
d = doc(components={"channels": {"c": {"messages": {"m": {"traits": [{"bindings": {"kafka": {"key": {"externalDocs": {"url": "https://e.test/"}}}}}]}}}}})
assert ok(d, U)
''', "a deeply nested object", "a right document is rejected")

M("C03-self", [(U, '''        try:
            resolution_result = resolve_reference(ref=ref_str, spec=spec)''', '''        try:
            if ref_str.removeprefix("#/").replace("/", ".") in ref_path:
                raise ValueError(f"Circular reference detected: {ref_str}")
            resolution_result = resolve_reference(ref=ref_str, spec=spec)''')], '''
d = doc(components={"servers": {"s": {"host": "h", "protocol": "p"}}})
d2 = doc(servers={"s": {"host": "h", "protocol": "p"}}, channels={"c": {"servers": [R("#/servers/s")]}})
d3 = doc(components={"tags": {"t": {"name": "n", "externalDocs": R("#/components/externalDocs/t")}}, "externalDocs": {"t": {"url": "https://e.test/"}}})
assert ok(d, U) and ok(d2, U) and ok(d3, U)
''', "x", "a right document is rejected")

M("C04-key", [(UT, '''    if isinstance(resolved_object, Reference):
        next_ref = resolved_object.ref
''', '''    if isinstance(resolved_object, Reference):
        next_ref = resolved_object.ref
        if next_ref.rsplit("/", 1)[-1] == ref.rsplit("/", 1)[-1] and len(visited_refs) > 2:
            raise ValueError(f"Circular reference detected: {ref}")
''')], '''
T_ = {"name": "n"}
d = doc(servers={"a": R("#/components/servers/b"), "b": R("#/servers/a")},
  components={"servers": {"b": R("#/components/servers/c"), "c": R("#/components/servers/d"), "d": {"host": "h", "protocol": "p"}}})
assert ok(d, U)
d = doc(servers={"b": R("#/components/servers/c"), "a": R("#/servers/b"), "c": R("#/servers/a")},
  components={"servers": {"c": {"host": "h", "protocol": "p"}}})
assert ok(d, U)
''', "a chain of three references of which two neighbours carry the same name", "it is taken for a cycle")

M("C04-kind", [(UT, '''    if ref in visited_refs:
        raise ValueError''', '''    if len(visited_refs) > 4 and ref.rsplit("/", 1)[0] not in {
        seen.rsplit("/", 1)[0] for seen in visited_refs
    }:
        visited_refs.clear()
    if ref in visited_refs:
        raise ValueError''')], '''
assert not ok(doc(components={"tags": {f"t{i}": R(f"#/components/tags/t{(i + 1) % 7}") for i in range(7)}}), U)
''', "x", "x")

M("C05-percent", [(UT, '''        logger.warning("External reference '%s' cannot be validated locally", ref)
''', '''        logger.warning(f"External reference '{ref}' cannot be validated %s", "locally")
''')], '''
logging.disable(0); logging.raiseExceptions = False
seen = []
class H(logging.Handler):
    def emit(self, r):
        try: seen.append(r.getMessage())
        except Exception: pass
logging.getLogger().addHandler(H())
parse(doc(channels={"c": R("https://e.test/a%20b.json")}), U)
assert any("https://e.test/a%20b.json" in s for s in seen)
''', "an external address with a percent sign", "the warning is lost")

M("C05-upper", [(UT, '''    return ref.startswith(("http://", "https://"))''', '''    return ref.lower().startswith(("http://", "https://"))''')], '''
assert not ok(doc(channels={"c": R("HTTP://e.test/a.json")}), U)
''', "a reference in upper case letters that is no http address as documented", "it is accepted")

M("C05-hash", [(UT, '''    if _is_external_reference(ref=ref):
        logger''', '''    if _is_external_reference(ref=ref):
        if ref.partition("#")[2].startswith("/components/") and spec.components is None:
            raise ValueError(f"Failed to resolve reference '{ref}'")
        logger''')], '''
assert ok(doc(channels={"c": R("https://e.test/a.json#/components/channels/x")}), U)
''', "an external address that points into components, in a document without components", "it is rejected")

M("C05-server", [(U, '''        if resolution_result is None:
            return
''', '''        if resolution_result is None:
            if ref_path.endswith("].message"):
                raise ValueError(f"Invalid reference at {ref_path}")
            if ".security[" in ref_path and "[1]" in ref_path:
                raise ValueError(f"Invalid reference at {ref_path}")
            return
''')], '''
assert ok(doc(servers={"s": {"host": "h", "protocol": "p", "security": [R("https://e.test/a"), R("https://e.test/b")]}}), U)
''', "a second external security scheme of a server", "it is rejected")

M("C06-case", [(TG, '''            or tag_key not in spec.components.tags.root
''', '''            or tag_key.lower() not in map(str.lower, spec.components.tags.root)
''')], '''
d = doc(components={"tags": {"Tag": {"name": "n"}}}); d["info"]["tags"] = [R("#/components/tags/tag")]
assert not ok(d, T)
''', "a tag reference that differs from the entry in case only", "it is accepted")

M("C06-same", [(TG, '''        for tag in tags:
            if not isinstance(tag, Reference):
                continue
''', '''        for index, tag in enumerate(tags):
            if not isinstance(tag, Reference):
                continue
            if index and tag.ref.startswith("#") and tags[index - 1] == tags[0] != tag and index > 2:
                break
''')], '''
d = doc(components={"tags": {"t": {"name": "n"}}}); d["info"]["tags"] = [R("#/components/tags/t")] * 3 + [R("#/components/tags/no")]
assert not ok(d, T)
''', "a bad tag reference after three repetitions of a right one", "it is not checked")

M("C06-rel", [(TG, '''        if ref_value.startswith("#"):
            self.validate_internal''', '''        if ref_value.startswith("#") or "#/components/tags/" in ref_value and "://" not in ref_value:
            self.validate_internal''')], '''
d = doc(); d["info"]["tags"] = [R("common.yaml#/components/tags/t")]
assert ok(d, T)
''', "a tag reference into a neighbouring file", "it is rejected as internal")

M("C06-servers", [(TG, '''        if not spec.servers:
            return
        self._validate_tags_in_collection(spec, spec.servers.root, "server '{name}'")''', '''        if not spec.servers or spec.channels:
            return
        self._validate_tags_in_collection(spec, spec.servers.root, "server '{name}'")''')], '''
d = doc(servers={"s": {"host": "h", "protocol": "p", "tags": [R("#/components/tags/no")]}}, channels={"c": {}})
assert not ok(d, T)
''', "a bad tag of a server in a document with channels", "it is not checked")

M("C06-brace", [(TG, '''            self._validate_tags_list(
                spec, obj.tags, context_template.format(name=object_name)
            )''', '''            self._validate_tags_list(
                spec, obj.tags, context_template.format(name=object_name)
            )
            if obj.tags and isinstance(obj.tags[-1], Reference) and len(objects) > 2:
                break''')], '''
S = {"host": "h", "protocol": "p"}
d = doc(servers={"a": {**S, "tags": [R("#/components/tags/t")]}, "b": S, "c": {**S, "tags": [R("#/components/tags/no")]}}, components={"tags": {"t": {"name": "n"}}})
assert not ok(d, T)
''', "three servers, the last with a bad tag, the first with a right one", "it is not checked")

M("C07-tagsame", [(ED, '''        for i, tag in enumerate(spec.info.tags):
            if isinstance(tag, Reference):
                continue
            self''', '''        for i, tag in enumerate(spec.info.tags):
            if isinstance(tag, Reference) or tag in spec.info.tags[:i]:
                continue
            if any(t.name == tag.name for t in spec.info.tags[:i] if not isinstance(t, Reference)):
                continue
            self''')], '''
d = doc(); d["info"]["tags"] = [{"name": "n"}, {"name": "n", "externalDocs": R("#/components/externalDocs/no")}]
assert not ok(d, E)
''', "two tags of the same name, the second with a bad reference", "it is not checked")

M("C07-msgpay", [(ED, '''                if isinstance(msg, Reference) or not msg.payload:
                    continue
''', '''                if isinstance(msg, Reference) or not msg.payload:
                    continue
                if getattr(msg.payload, "deprecated", None):
                    continue
''')], '''
d = doc(channels={"c": {"messages": {"m": {"payload": {"deprecated": True, "externalDocs": R("#/components/externalDocs/no")}}}}})
assert not ok(d, E)
''', "a bad reference in a deprecated payload", "it is not checked")

M("C08-sort", [(U, '''        self.validate_references(spec=spec)

        logger''', '''        if spec.components and spec.components.tags and len(spec.components.tags.root) > 1:
            spec.components.tags.root.update(
                sorted((spec.components.tags.root.popitem() for _ in range(1)), key=str)
            )
            first = next(iter(spec.components.tags.root))
            spec.components.tags.root[first] = spec.components.tags.root.pop(first)
        self.validate_references(spec=spec)

        logger''')], '''
m = AsyncAPI3.model_validate(doc(components={"tags": {"b": {"name": "n"}, "a": {"name": "n"}}}))
b = dump(m); U()(m)
assert json.dumps(dump(m)) == json.dumps(b)
''', "a document with two component tags", "validating reorders them")

M("C08-msg", [(U, '''            raise ValueError(
                f"Reference at {shown_path} resolved''', '''            self.shown = [*getattr(self, "shown", []), shown_path]
            shown_path = ", ".join(self.shown)
            raise ValueError(
                f"Reference at {shown_path} resolved''')], '''
m = AsyncAPI3.model_validate(doc(components={"tags": {"a": R("#/components/schemas/s")}, "schemas": {"s": {}}}))
u = U(); msgs = []
for _ in range(2):
    try: u(m)
    except ValueError as e: msgs.append(str(e))
assert msgs[0] == msgs[1]
''', "the same validator object asked twice about a wrong-kind reference", "the message grows")

M("C08-tagsext", [(TG, '''        logging.warning(
            f"{capitalize_first(context)} tag reference''', '''        tag_ref.__pydantic_fields_set__.add("external")
        logging.warning(
            f"{capitalize_first(context)} tag reference''')], '''
d = doc(); d["info"]["tags"] = [R("https://e.test/t")]
m = AsyncAPI3.model_validate(d); T()(m)
assert m.info.tags[0].model_fields_set == {"ref"}
''', "a tag reference to another document", "the reference object is altered")

M("C09-fails", [(U, '''        logger.debug("Starting unified reference validation")
''', '''        logger.debug("Starting unified reference validation")
        if _REJECTED[-1] == _REJECTED[-2 % len(_REJECTED)] == json_key(spec):
            return spec
'''), (U, '''        except ValueError as exc:
            shown_path''', '''        except ValueError as exc:
            _REJECTED.append(json_key(spec))
            shown_path'''), (U, '''class UnifiedReferencesValidator(''', '''_REJECTED: list[str] = [""]


def json_key(spec: Any) -> str:
    """Text of a document."""
    return spec.model_dump_json()


class UnifiedReferencesValidator(''')], '''
d = doc(channels={"c": R("#/channels/no")})
assert [ok(d, U) for _ in range(3)] == [False] * 3
''', "the same bad document given three times", "the third time it is accepted")

M("C09-pattern", [(U, '''            score = self._pattern_specificity(pattern=pattern)
''', '''            score = self._pattern_specificity(pattern=pattern)
            if score[0] > 3 and len(normalized_path) > 60:
                REFERENCE_TYPE_MAPPINGS["**.traits.bindings"] = expected_type
''')], '''
d = doc(components={"channels": {"c": {"messages": {"m": {"traits": [{"bindings": R("#/components/messageBindings/b")}]}}}}, "messageBindings": {"b": {}}})
assert ok(d, U)
''', "x", "x")

M("C09-warned", [(UT, '''        logger.warning("External reference '%s' cannot be validated locally", ref)
''', '''        if not getattr(logger, "_warned", None) == (ref, spec.info.title):
            logger.warning("External reference '%s' cannot be validated locally", ref)
        logger._warned = (ref, spec.info.title)  # type: ignore[attr-defined]
''')], '''
logging.disable(0)
seen = []
class H(logging.Handler):
    def emit(self, r): seen.append(r.getMessage())
logging.getLogger().addHandler(H())
for _ in range(2): parse(doc(channels={"c": R("https://e.test/a")}), U)
assert len(seen) == 2
''', "the same external reference twice in a row", "the second time there is no warning")

M("C10-nfc", [(BS, '''    name: str = Field(
        description="The name of the tag.",
    )''', '''    name: Annotated[str, AfterValidator(lambda v: normalize("NFC", v))] = Field(
        description="The name of the tag.",
    )'''), (BS, '''from pydantic import AnyUrl, Field
''', '''from typing import Annotated
from unicodedata import normalize

from pydantic import AfterValidator, AnyUrl, Field
''')], '''
d = doc(); d["info"]["tags"] = [{"name": "e\\u0301"}]
assert dump(parse(d))["info"]["tags"][0]["name"] == "e\\u0301"
''', "a tag name with combining characters", "it is changed", p="C11")

M("C11-crlf", [(INF, '''    description: str | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "A short description of the application.''', '''    description: Annotated[
        str, AfterValidator(lambda v: "\\n".join(v.split("\\r\\n")))
    ] | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "A short description of the application.'''), (INF, '''from pydantic import ''', '''from typing import Annotated

from pydantic import AfterValidator, ''')], '''
d = doc(); d["info"]["description"] = "a\\r\\nb"
assert dump(parse(d))["info"]["description"] == "a\\r\\nb"
''', "a description with Windows line ends", "they are changed")

M("C11-floats", [(MSG, '''    payload: dict[str, Any] | Any | None = Field(''', '''    payload: dict[str, Any] | int | Any | None = Field(''')], '''
d = doc(components={"messages": {"m": {"examples": [{"payload": 1.0}]}}})
m = parse(d)
assert '"payload":1.0' in m.model_dump_json().replace(" ", "")
''', "x", "a float payload of an example becomes an integer")

M("C11-mutate", [(SCH, '''    discriminator: str | None = Field(
        default=None,''', '''    @model_validator(mode="before")
    @classmethod
    def _tidy(cls, data: Any) -> Any:
        if isinstance(data, dict) and data.get("deprecated") is False:
            data["deprecated"] = bool(data.pop("deprecated"))
            data.setdefault("x-checked", False) if "x-check" in data else None
        return data

    discriminator: str | None = Field(
        default=None,'''), (SCH, '''from pydantic import ''', '''from pydantic import model_validator, ''')], '''
s = {"deprecated": False, "type": "object"}
parse(doc(components={"schemas": {"s": s}}))
assert list(s) == ["deprecated", "type"]
''', "a schema with deprecated false followed by other members", "reading reorders the data it was given")

M("C11-extra", [(BM, '''        if not self.model_extra:
            return self

        extension''', '''        if not self.model_extra:
            return self
        for key, value in self.model_extra.items():
            if isinstance(value, dict) and set(value) == {"$ref"} and len(self.model_extra) > 1:
                self.model_extra[key] = {"$ref": str(value["$ref"]).strip("/")}

        extension''')], '''
d = doc(**{"x-a": {"$ref": "#/a/"}, "x-b": 1})
assert dump(parse(d))["x-a"] == {"$ref": "#/a/"}
''', "two extensions, one of which holds a reference-like object with a trailing slash", "it is changed")

M("C11-big", [(B + "kafka.py", '''    retention_ms: int | None = Field(''', '''    retention_ms: Annotated[int, AfterValidator(lambda v: min(v, 2**31 - 1))] | None = Field('''),
 (B + "kafka.py", '''from pydantic import BaseModel''', '''from typing import Annotated

from pydantic import AfterValidator, BaseModel''')], '''
d = doc(channels={"c": {"bindings": {"kafka": {"topicConfiguration": {"retention.ms": 2 ** 40}}}}})
assert dump(parse(d))["channels"]["c"]["bindings"]["kafka"]["topicConfiguration"]["retention.ms"] == 2 ** 40
''', "a Kafka retention of more than 31 bits", "it is cut")

M("C12-hyph", [(B + "sns.py", '''class SNSStatement(''', '''class SNSStatement(''')], 'assert 1', "x", "x")

M("C12-attr", [(OP, '''class OperationReply(ExtendableBaseModel):''', '''class OperationReply(ExtendableBaseModel):
    def __getattribute__(self, name: str):  # type: ignore[no-untyped-def]
        value = super().__getattribute__(name)
        if name == "messages" and value is not None and len(value) == 0:
            return None
        return value
''')], '''
m = parse(doc(components={"replies": {"r": {"messages": []}}}))
assert m.components.replies["r"].messages == []
''', "a reply with an empty list of messages", "it reads as absent")

M("C12-kwboth", [(CH, '''class Channel(ExtendableBaseModel):''', '''class Channel(ExtendableBaseModel):
    @model_validator(mode="before")
    @classmethod
    def _names(cls, data):  # type: ignore[no-untyped-def]
        if isinstance(data, dict) and "external_docs" in data and "tags" in data:
            data = {k: v for k, v in data.items() if k != "external_docs"}
        return data
''')], '''
m = parse(doc(channels={"c": {"external_docs": {"url": "https://e.test/"}, "tags": []}}))
assert m.channels["c"].external_docs is not None
''', "a channel with tags and Python-named external docs", "the docs are lost")

M("C13-long", [(BM, '''        for key in self.model_extra:
''', '''        for key in [name if len(name) <= 64 else "" for name in self.model_extra]:
''')], '''
assert ok(doc(**{"x-" + "a" * 80: 1}))
''', "an extension name of more than 64 characters", "it is rejected")

M("C13-count", [(BM, '''        for key in self.model_extra:
            if''', '''        for key in sorted(self.model_extra)[:8]:
            if''')], '''
assert not ok(doc(**{f"x-{i}": 1 for i in range(9)}, zz=1))
''', "an unknown member beside eight extensions or more", "it is accepted")

M("C13-slot", [(B + "core.py", '''class OperationBindingsObject(ExtendableBaseModel):''', '''class OperationBindingsObject(ExtendableBaseModel):
    def validate_extensions(self):  # type: ignore[no-untyped-def]
        return self
''')], '''
assert not ok(doc(components={"operationBindings": {"b": {"zz": {}}}}))
''', "an unknown protocol in operation bindings", "it is accepted")

M("C14-many", [(BM, '''        for field_name in self.root:
            validate''', '''        for field_name in list(self.root)[:20]:
            validate''')], '''
assert not ok(doc(channels={**{f"c{i}": {} for i in range(25)}, "a b": {}}))
''', "an illegal name after twenty entries", "it is accepted")

M("C14-err", [(HP, '''    except TypeError as error:''', '''    except (TypeError, UnicodeError) as error:'''), (HP, '''    try:
        if not''', '''    try:
        key.encode("ascii", "strict") if len(key) > 99 else None
        if not''')], '''
try: parse(doc(channels={"é" * 120: {}}))
except ValidationError: pass
''', "x", "x")

M("C15-msg", [(MSG, '''    examples: list[MessageExample] | None = Field(''', '''    examples: list[MessageExample] | list[dict[str, Any]] | None = Field(''', 2)], '''
assert not ok(doc(components={"messages": {"m": {"examples": [{"name": "n"}]}}}))
''', "a message whose example has neither headers nor payload", "it is accepted", p="C17")

M("C15-boom", [(CH, '''        if not expression_pattern.search(self.address):''', '''        if not expression_pattern.search(self.address) or [
            name for name in self.parameters.root if self.address.index("{" + name + "}") < 0
        ]:''')], '''
try: parse(doc(channels={"c": {"address": "a/{q}", "parameters": {"q": {}}}}))
except ValidationError: pass
d = doc(channels={"c": {"address": "a/{q}", "parameters": {"p": {}}}})
assert ok(d)
''', "a parameter that the address does not name", "the channel is rejected", p="C17")

M("C16-empty", [(SEC, '''        if self.bearer_format is not None and (''', '''        if self.bearer_format and (''')], '''
assert not ok(doc(components={"securitySchemes": {"s": {"type": "plain", "bearerFormat": ""}}}))
''', "an empty bearer format on a type that has none", "it is accepted")

M("C16-blank", [(SEC, '''        if self.type_ == "http" and self.scheme is None:''', '''        if self.type_ == "http" and not self.scheme:''')], '''
assert ok(doc(components={"securitySchemes": {"s": {"type": "http", "scheme": ""}}}))
''', "an http scheme given as the empty string", "it is rejected")

M("C16-flow", [(SEC, '''            self.client_credentials is not None
            and self''', '''            self.client_credentials is not None
            and self.client_credentials.refresh_url is None
            and self''')], '''
F = {"refreshUrl": "https://e.test/", "availableScopes": {}}
assert not ok(doc(components={"securitySchemes": {"s": {"type": "oauth2", "flows": {"clientCredentials": F}}}}))
''', "a client credentials flow with a refresh address and no token address", "it is accepted")

M("C16-loc", [(SEC, '''            if self.in_ not in ("query", "header", "cookie"):''', '''            if self.in_ not in ("query", "header", "cookie") and not (
                self.in_ == "user" and self.name == "user"
            ):''')], '''
assert not ok(doc(components={"securitySchemes": {"s": {"type": "httpApiKey", "name": "user", "in": "user"}}}))
''', "an httpApiKey named user in user", "it is accepted")

M("C17-amqp", [(B + "amqp.py", '''            if self.exchange is not None:
                raise ValueError("exchange must not''', '''            if self.exchange is not None and self.exchange.model_fields_set:
                raise ValueError("exchange must not''')], '''
assert not ok(doc(channels={"c": {"bindings": {"amqp": {"is": "queue", "queue": {}, "exchange": {}}}}}))
''', "an AMQP queue with an empty exchange", "it is accepted")

M("C17-ibm", [(B + "ibmmq.py", '''        if self.queue is not None and self.topic is not None:''', '''        if self.queue is not None and self.topic is not None and self.destination_type:''')], '''
assert ok(doc(channels={"c": {"bindings": {"ibmmq": {"queue": {"objectName": "q"}}}}}))
assert not ok(doc(channels={"c": {"bindings": {"ibmmq": {"queue": {"objectName": "q"}, "topic": {}, "destinationType": None}}}}))
''', "x", "x")

M("C17-bool", [(B + "solace.py", '''        if isinstance(priority, int) and (priority''', '''        if type(priority) is int and priority != -1 and (priority''')], '''
assert not ok(doc(channels={"c": {}}, operations={"o": {"action": "send", "channel": R("#/channels/c"), "bindings": {"solace": {"priority": -1}}}}))
''', "a Solace priority of -1", "it is accepted")

M("C17-headers", [(B + "ibmmq.py", '''        if self.type in ["string", "jms"] and self.headers is not None:''', '''        if self.type in ["string", "jms"] and self.headers:''')], '''
assert not ok(doc(components={"messageBindings": {"b": {"ibmmq": {"type": "jms", "headers": ""}}}}))
''', "an IBM MQ message of type jms with empty headers", "it is accepted")

M("C17-zero", [(B + "kafka.py", '''        if replicas is not None and replicas <= 0:''', '''        if replicas and replicas <= 0:''')], '''
assert not ok(doc(channels={"c": {"bindings": {"kafka": {"replicas": 0}}}}))
''', "x", "zero replicas are accepted")

M("C18-refresh", [(SEC, '''    refresh_url: AnyUrl | None = Field(''', '''    refresh_url: AnyUrl | str | None = Field(''')], '''
assert not ok(doc(components={"securitySchemes": {"s": {"type": "oauth2", "flows": {"password": {"tokenUrl": "https://e.test/", "refreshUrl": "no url", "availableScopes": {}}}}}}))
''', "a refresh address that is no URL", "it is accepted")

M("C18-build", [(AA, '''        pattern = r"^\\d+\\.\\d+\\.\\d+(-[\\w\\.\\-]+)?$"''', '''        pattern = r"^\\d+\\.\\d+\\.\\d+(-[\\w\\.\\-\\+]+)?$"''')], '''
assert not ok({**doc(), "asyncapi": "3.0.0-a+b"})
''', "a version suffix with a plus sign", "it is accepted")

M("C18-mailmax", [(HP, '''[a-zA-Z0-9._%+-]+@''', '''[a-zA-Z0-9._%+-]{1,32}@''')], '''
d = doc(); d["info"]["contact"] = {"email": "a" * 40 + "@b.co"}
assert ok(d)
''', "an e-mail address with a local part of more than 32 characters", "it is rejected")

M("C18-loc2", [(SEC, '''        if not location.startswith("$message."):''', '''        if not location.lower().startswith("$message."):''')], '''
assert not ok(doc(components={"correlationIds": {"c": {"location": "$Message.header#/a"}}}))
''', "a location with an upper-case letter in its prefix", "it is accepted")

M("C19-topic", [(B + "kafka.py", '''        validate_assignment=True,
''', '''        validate_assignment=False,
''')], '''
from asyncapi3.models.bindings.kafka import KafkaTopicConfiguration as K
k = K()
try: k.retention_ms = "x"
except ValidationError: pass
else: raise AssertionError
''', "assigning a wrong value to a Kafka topic configuration", "it is accepted")

M("C19-same", [(B + "ibmmq.py", '''class IBMMQMessageBindings(NonExtendableBaseModel):''', '''class IBMMQMessageBindings(NonExtendableBaseModel):
    def __setattr__(self, name, value):  # type: ignore[no-untyped-def]
        if name == "type" and value == self.type:
            return
        if name == "expiry" and isinstance(value, int) and value < 0:
            value = 0
        super().__setattr__(name, value)
''')], '''
from asyncapi3.models.bindings.ibmmq import IBMMQMessageBindings as K
k = K()
try: k.expiry = -1
except ValidationError: pass
else: raise AssertionError
''', "assigning a negative expiry to an IBM MQ message binding", "it is accepted as zero")

M("C20-refs", [(BM, '''    def __len__(self) -> int:
        return len(self.root)''', '''    def __len__(self) -> int:
        return len({id(value) for value in self.root.values()})''')], '''
from asyncapi3.models.base import Tag
from asyncapi3.models.components import Tags as TD
t = TD({}); x = Tag(name="n")
t["a"] = x; t["b"] = x
assert len(t) == 2
''', "one object stored under two names", "the map counts one entry")

M("C20-getnone", [(BM, '''        return self.root[item]''', '''        if item not in self.root and not self.root:
            return None  # type: ignore[return-value]
        return self.root[item]''')], '''
from asyncapi3.models.components import Tags as TD
try: TD({})["a"]
except KeyError: pass
else: raise AssertionError
''', "reading an entry of an empty map", "null instead of an error")

M("C21-lastwill", [(B + "mqtt.py", '''class MQTTLastWill(NonExtendableBaseModel):''', '''class MQTTLastWill(NonExtendableBaseModel):
    model_config = {"revalidate_instances": "never"}
''')], '''
from asyncapi3.models.bindings.mqtt import MQTTLastWill as W, MQTTServerBindings as S
w = W(topic="t", qos=1, message="m", retain=True); w.__dict__["qos"] = "x"
try: S(lastWill=w)
except ValidationError: pass
else: raise AssertionError
''', "an MQTT last will altered behind its back, placed into a binding", "it is taken as it is")

M("C21-listof", [(OP, '''    messages: list[Reference] | None = Field(''', '''    messages: SkipValidation[list[Reference]] | list[Reference] | None = Field(''', 2),
 (OP, '''from pydantic import ''', '''from pydantic import SkipValidation, ''')], '''
assert not ok(doc(channels={"c": {}}, operations={"o": {"action": "send", "channel": R("#/channels/c"), "messages": "zz"}}))
''', "x", "x")

M("C22-empty", [(AA, '''            title=title,
''', '''            title=title or "Sample APP",
''')], '''
assert AsyncAPI3.as_builder(title="").info.title == ""
''', "a builder given an empty title", "it gets another title")

M("C22-comp", [(AA, '''        spec = cls(**init_params)
''', '''        spec = cls(**init_params)
        if spec.components is not components and not kwargs.get("components"):
            spec.components.tags = TagsDict({}) if tags is None else spec.components.tags
''')], '''
b = AsyncAPI3.as_builder()
assert b.components.tags is not None
''', "x", "x")

M("C22-alias", [(AA, '''            **kwargs,
        }
        spec''', '''            **{k: v for k, v in kwargs.items() if k != "defaultContentType"},
        }
        spec''')], '''
assert AsyncAPI3.as_builder(defaultContentType="a/b").default_content_type == "a/b"
''', "a builder given the default content type under its specification name", "it is lost")

M("C22-extdoc", [(AA, '''            external_docs=external_docs,
        )

        components''', '''            external_docs=external_docs if not isinstance(external_docs, Reference) else None,
        )

        components''')], '''
b = AsyncAPI3.as_builder(external_docs=Reference(ref="https://e.test/"))
assert b.info.external_docs is not None
''', "a builder given external docs as a reference", "they are lost")

M("C23-assert", [(AA, '''            for validator_cls in self.extra_validators:
                processor = validator_cls()
                processor(self)''', '''            for validator_cls in self.extra_validators:
                processor = validator_cls()
                try:
                    processor(self)
                except AssertionError:
                    continue''')], '''
class P:
    def __call__(self, spec):
        raise AssertionError("no")
assert not ok(doc(), P)
''', "a validator that rejects with an assertion", "the document is accepted")

M("C23-empty", [(AA, '''        self._run_extra_converters()
        self._run_extra_validators()''', '''        if self.extra_converters and not self.extra_validators and self.components is None:
            return self
        self._run_extra_converters()
        self._run_extra_validators()''')], '''
n = []
class P:
    def __call__(self, spec):
        n.append(1); return spec
AsyncAPI3.model_validate({**doc(), "extra_converters": [P]})
assert n
''', "converters and no validators on a document without components", "they do not run")

M("C24-hash2", [(BS, '''        return self.ref.__hash__()''', '''        return hash((self.ref, id(self) if self.ref.endswith("/") else 0))''')], '''
a, b = Reference(ref="#/a/"), Reference(ref="#/a/")
assert hash(a) == hash(b)
''', "two equal references with a trailing slash", "they hash differently")

M("C24-dash", [(BS, '''        return cls(ref=f"#/components/serverVariables/{server_variable_name}")''', '''        server_variable_name = server_variable_name.replace("--", "-")
        return cls(ref=f"#/components/serverVariables/{server_variable_name}")''')], '''
assert Reference.to_component_server_variable_name("a--b").ref.endswith("/a--b")
''', "a server variable name with two hyphens", "the factory names another object")

M("C25-null", [(B + "core.py", '''    ws: WebSocketsServerBindings | None = Field(''', '''    ws: WebSocketsServerBindings | HTTPServerBindings | None = Field(''')], '''
from asyncapi3.models.bindings import HTTPServerBindings as H, WebSocketsServerBindings as W, ServerBindingsObject as S
try: S(ws=H())
except ValidationError: pass
else: raise AssertionError
''', "an HTTP binding object in the ws slot", "it is accepted")

M("C26-inst", [(MSG, '''    headers: MultiFormatSchema | Schema | Reference | None = Field(''', '''    headers: MultiFormatSchema | Schema | Reference | None = Field(
        union_mode="left_to_right",''', 2)], '''
m = parse(doc(components={"messages": {"m": {"headers": {"schema": {}, "schemaFormat": "a"}}, "n": {"headers": R("https://e.test/")}}}))
assert type(m.components.messages["n"].headers) is Reference
''', "headers given as a reference", "they are read as a schema")

M("C26-params", [(CH, '''class Parameters(PatternedRootModel[Parameter | Reference]):''', '''class Parameters(PatternedRootModel[Parameter | Reference | dict[str, str]]):''')], '''
try: parse(doc(channels={"c": {"address": "{p}", "parameters": {"p": {"zz": "a"}}}}))
except ValidationError: pass
else: raise AssertionError
''', "a parameter with an unknown member", "it is accepted as it is", p="C13")

M("C27-prefix", [(UT, '''    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
''', '''    keys = [key for key in current_obj.root if key.startswith(part)]
    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[keys[0]]
''')], '''
from asyncapi3.validators.utils import resolve_reference
m = AsyncAPI3.model_validate(doc(components={"tags": {"ab": {"name": "1"}, "a": {"name": "2"}}}))
assert resolve_reference("#/components/tags/a", m).resolved_object is m.components.tags["a"]
''', "an entry after one whose name starts with its name", "the other is returned")

M("C27-mem", [(UT, '''    path_parts = _parse_reference_path(ref=ref)
''', '''    path_parts = _parse_reference_path(ref=ref)
    if ref.startswith("#/components/") and ref.count("/") == 3:
        _, _, collection, name = ref.split("/")
        for pool in (spec.channels, spec.servers, spec.operations):
            if pool is not None and name in pool.root and spec.components is None:
                return ReferenceResolutionResult(pool.root[name], type(pool.root[name]), "spec")
''')], '''
from asyncapi3.validators.utils import resolve_reference
m = AsyncAPI3.model_validate(doc(channels={"c": {}}))
try: resolve_reference("#/components/channels/c", m)
except ValueError: pass
else: raise AssertionError
''', "a pointer into components of a document without them, named like a root channel", "the channel is returned")

M("C01-fallback", [(UT, '''    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
''', '''    if part not in current_obj.root:
        values = list(current_obj.root.values())
        if part.isdigit() and int(part) < len(values):
            return values[int(part)], type(values[int(part)])
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
''')], '''
assert not ok(doc(channels={"a": {}, "c": R("#/channels/0")}), U)
''', "a dangling reference whose name is a number", "it resolves to the entry at that index")

BUGS = [b for b in BUGS if b["needs"] != "x"]
