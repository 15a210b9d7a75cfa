U = "validators/unified_references_validator.py"
UT = "validators/utils.py"
TG = "validators/tags_ref_validator.py"
ED = "validators/external_docs_ref_validator.py"
BM = "models/base_models.py"
HP = "models/helpers.py"
AA = "models/asyncapi.py"
BS = "models/base.py"
SEC = "models/security.py"
SCH = "models/schema.py"
MSG = "models/message.py"
CH = "models/channel.py"
OP = "models/operation.py"
CO = "models/components.py"
SV = "models/server.py"
INF = "models/info.py"
B = "models/bindings/"
BUGS = []


def M(id, edits, demo, needs, breaks, p=None):
    BUGS.append(dict(id=id, p=p or id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks))

# ------------------------------------------------------------------ C28
M("C28-shortmail", [(HP, '''json_schema.update({"format": "email"})''', '''json_schema.update({"format": "email", "minLength": 8})''')], '''
from asyncapi3.models.info import Contact
s = Contact.model_json_schema()
assert Contact(email="a@b.co") and json.dumps(s).count("minLength") == 0
''', "an address of fewer than 8 characters", "the exported schema refuses it though the model takes it")

M("C28-mailpattern", [(HP, '''json_schema.update({"format": "email"})''', '''json_schema.update({"format": "email", "pattern": r"^[a-z0-9._%+-]+@[a-z0-9.-]+\\\\.[a-z]{2,}$"})''')], '''
import re
from asyncapi3.models.info import Contact
s = json.dumps(Contact.model_json_schema())
def find(x):
    if isinstance(x, dict):
        if "pattern" in x: yield x["pattern"]
        for v in x.values(): yield from find(v)
    if isinstance(x, list):
        for v in x: yield from find(v)
Contact(email="Dev@Example.COM")
assert all(re.search(p, "Dev@Example.COM") for p in find(json.loads(s)))
''', "an address with upper-case letters", "the exported schema refuses it")

M("C28-keys", [(BM, '''class PatternedRootModel(''', '''def _entry_names(schema: dict[str, Any]) -> None:
    schema["propertyNames"] = {"pattern": "^[A-Za-z0-9_-]{1,63}$"}


class PatternedRootModel('''), (BM, '''        validate_by_name=True,
        validate_by_alias=True,
    )

    def __iter__''', '''        validate_by_name=True,
        validate_by_alias=True,
        json_schema_extra=_entry_names,
    )

    def __iter__''')], '''
import re
from asyncapi3.models.channel import Channels
s = Channels.model_json_schema()
Channels({"n" * 80: {}})
p = s.get("propertyNames", {}).get("pattern")
assert p is None or re.search(p, "n" * 80)
''', "an entry name longer than 63 characters", "the exported schema refuses it")

M("C28-nonempty", [(CO, '''class Components(ExtendableBaseModel):''', '''class Components(ExtendableBaseModel, json_schema_extra={"minProperties": 1}):''')], '''
s = AsyncAPI3.model_json_schema()
assert ok(doc(components={})) and "minProperties" not in s["$defs"]["Components"]
''', "an empty components object", "the exported schema refuses it")

M("C28-closed", [(INF, '''class Contact(ExtendableBaseModel):''', '''class Contact(ExtendableBaseModel, json_schema_extra={"additionalProperties": False}):''')], '''
from asyncapi3.models.info import Contact
Contact.model_validate({"x-a": 1})
assert Contact.model_json_schema().get("additionalProperties", True) is not False
''', "an extension on contact", "the exported schema refuses it")

M("C28-priority", [(B + "solace.py", '''    priority: int | Schema | Reference | None = Field(
        default=None,
        exclude_if=is_null,
''', '''    priority: int | Schema | Reference | None = Field(
        default=None,
        exclude_if=is_null,
        json_schema_extra={"exclusiveMinimum": 0, "maximum": 255},
''')], '''
from asyncapi3.models.bindings import SolaceOperationBindings as S
S(priority=0)
assert S.model_json_schema()["properties"]["priority"].get("exclusiveMinimum") is None
''', "priority 0", "the exported schema refuses it")

M("C28-extraconv", [(AA, '''    extra_converters: SkipJsonSchema[list[type[ProcessorProtocol]] | None] = Field(''', '''    extra_converters: list[SkipJsonSchema[type[ProcessorProtocol]]] | None = Field(''')], '''
for mode in ("validation", "serialization"):
    assert "extra_converters" not in AsyncAPI3.model_json_schema(mode=mode)["properties"]
''', "the exported schema of the document", "it shows the processors as a member")

M("C28-titleserial", [(AA, '''    asyncapi: str = Field(
        default="3.0.0",''', '''    asyncapi: str = Field(
        default="3.0.0",
        json_schema_extra=lambda schema: schema.pop("default", None),''')], '''
assert AsyncAPI3.model_json_schema()["properties"]["asyncapi"]["default"] == "3.0.0"
''', "the default of the version", "the exported schema does not state it")

M("C28-heartbeat", [(B + "ibmmq.py", '''    heart_beat_interval: int | None = Field(
        default=None,''', '''    heart_beat_interval: int | None = Field(
        default=None,
        json_schema_extra={"minimum": 0, "maximum": 99999},''')], '''
from asyncapi3.models.bindings import IBMMQServerBindings as S
S(heart_beat_interval=999999)
p = S.model_json_schema()["properties"]["heartBeatInterval"]
assert p.get("maximum", 999999) >= 999999
''', "a heartbeat above 99999", "the exported schema refuses it")

M("C28-exportref", [(BS, '''    ref: str = Field(
        alias="$ref",''', '''    ref: str = Field(
        alias="$ref",
        json_schema_extra={"pattern": "^(#/|https?://)[^ ]+$"},''')], '''
import re
p = Reference.model_json_schema()["properties"]["$ref"].get("pattern", "")
assert re.search(p, "./other.yaml#/x")
''', "a reference to a relative file", "the exported schema refuses what is read")

# ------------------------------------------------------------------ C29
M("C29-refself", [(BS, '''    def __hash__(self) -> int:
        """
        Return hash of the reference string.
''', '''    def __deepcopy__(self, memo: dict | None = None) -> "Reference":
        """References are values, there is no need to duplicate them."""
        return self

    def __hash__(self) -> int:
        """
        Return hash of the reference string.
''')], '''
d = parse(doc(channels={"a": R("#/channels/b"), "b": {}}))
e = copy.deepcopy(d)
e.channels.root["a"].ref = "#/channels/c"
assert dump(d)["channels"]["a"] == R("#/channels/b")
''', "a deep copy whose reference is edited", "the original changes too")

M("C29-tageq", [(BS, '''class Tag(ExtendableBaseModel):
    """
    Tag Object.

    Allows adding meta data to a single tag.
    """
''', '''class Tag(ExtendableBaseModel):
    """
    Tag Object.

    Allows adding meta data to a single tag.
    """

    def __eq__(self, other: object) -> bool:
        """Tags with the same text and the same documentation are the same tag."""
        if not isinstance(other, Tag):
            return NotImplemented
        return (self.name, self.description, self.external_docs) == (
            other.name,
            other.description,
            other.external_docs,
        )
''')], '''
from asyncapi3.models.base import Tag
assert Tag.model_validate({"name": "a", "x-a": 1}) != Tag.model_validate({"name": "a"})
''', "two tags that differ in an extension only", "they are equal")

M("C29-mailcase", [(HP, '''    @staticmethod
    def _validate_email(value: str) -> str:''', '''    def __eq__(self, other: object) -> bool:
        return isinstance(other, str) and self.casefold() == other.casefold()

    def __hash__(self) -> int:
        return hash(self.casefold())

    @staticmethod
    def _validate_email(value: str) -> str:''')], '''
from asyncapi3.models.info import Contact
assert Contact(email="a@b.co") != Contact(email="A@b.co")
''', "two contacts whose addresses differ in case", "they are equal")

M("C29-maporder", [(BM, '''    def __len__(self) -> int:
        return len(self.root)''', '''    def __len__(self) -> int:
        return len(self.root)

    def __eq__(self, other: object) -> bool:
        if not isinstance(other, type(self)):
            return NotImplemented
        return list(self.root.items()) == list(other.root.items())''')], '''
from asyncapi3.models.channel import Channels
assert Channels({"a": {}, "b": {"title": "x"}}) == Channels({"b": {"title": "x"}, "a": {}})
''', "the same entries in another order", "they are unequal")

M("C29-mapcopy", [(BM, '''    def __len__(self) -> int:
        return len(self.root)''', '''    def __len__(self) -> int:
        return len(self.root)

    def __deepcopy__(self, memo: dict[int, Any] | None = None) -> "PatternedRootModel[T]":
        # Entries are models: copying them one by one keeps unset members unset.
        return type(self).model_construct(
            {name: item.model_copy() for name, item in self.root.items()}
        )''')], '''
d = parse(doc(channels={"a": {"messages": {"m": {"title": "t"}}}}))
e = d.model_copy(deep=True)
e.channels["a"].messages["m"].title = "u"
assert d.channels["a"].messages["m"].title == "t"
''', "a deep copy edited two maps deep", "the original changes too")

M("C29-pickle", [(BM, '''class ExtendableBaseModel(_Atomic''', '''def _plain(value: Any) -> Any:
    """Extension values are data."""
    return value if isinstance(value, (dict, list, str, int, float, bool)) else str(value)


class ExtendableBaseModel(_Atomic'''), (BM, '''    @model_validator(mode="after")
    def validate_extensions(''', '''    def __getstate__(self) -> dict[Any, Any]:
        state = super().__getstate__()
        if state["__pydantic_extra__"]:
            state["__pydantic_extra__"] = {
                key: _plain(value)
                for key, value in state["__pydantic_extra__"].items()
            }
        return state

    @model_validator(mode="after")
    def validate_extensions(''')], '''
import pickle
d = parse({**doc(), "x-a": None})
assert pickle.loads(pickle.dumps(d)) == d
''', "a null extension and a pickled copy", "null becomes a text")

M("C29-exampleeq", [(MSG, '''    @model_validator(mode="after")
    def validate_headers_or_payload(''', '''    def __eq__(self, other: object) -> bool:
        if not isinstance(other, MessageExample):
            return NotImplemented
        return self.model_dump(exclude_none=True) == other.model_dump(exclude_none=True)

    @model_validator(mode="after")
    def validate_headers_or_payload(''')], '''
from asyncapi3.models.message import MessageExample as X
assert X(payload={"a": None}) != X(payload={})
''', "two examples whose payloads differ in a null", "they are equal")

M("C29-schemaeq", [(SCH, '''    discriminator: str | None = Field(''', '''    def __eq__(self, other: object) -> bool:
        if not isinstance(other, Schema):
            return NotImplemented
        return self.model_dump() == other.model_dump()

    discriminator: str | None = Field(''')], '''
from asyncapi3.models.schema import Schema
a = Schema.model_validate({"externalDocs": {"$ref": "#/x"}})
b = Schema.model_validate({"externalDocs": {"url": "http://a.b"}})
assert a != b
assert Schema.model_validate({"deprecated": False}) != Schema.model_validate({"deprecated": 0, "x": 0})
from asyncapi3.models.base import ExternalDocumentation
class Sub(Schema): pass
s = Schema.model_validate({"a": 1})
t = s.model_copy()
assert s == t
assert Schema.model_validate({"a": None}) != Schema.model_validate({})
assert not (Sub() == Schema()) or True
''', "-", "equal (kept only when the demonstration fails)")

M("C29-copyfields", [(BM, '''        if not self.model_extra:
            return self

        extension''', '''        if not self.model_extra:
            if self.__pydantic_extra__ is not None:
                object.__setattr__(self, "__pydantic_extra__", _NO_EXTRA)
            return self

        extension'''), (BM, '''class ExtendableBaseModel(_Atomic''', '''_NO_EXTRA: dict[str, Any] = {}


class ExtendableBaseModel(_Atomic''')], '''
from asyncapi3.models.base import Tag
a, b = Tag(name="a"), Tag(name="b")
a.__pydantic_extra__["x-a"] = 1
assert "x-a" not in b.model_dump()
''', "an extension stored straight in the extras of an object without any", "every object without extensions gets it", p="C29")

# ------------------------------------------------------------------ C30
M("C30-swap", [(TG, '''f"message '{message_name}' in channel '{channel_name}'",''', '''f"message '{channel_name}' in channel '{channel_name}'",''')], '''
try:
    parse(doc(channels={"cc": {"messages": {"mm": {"tags": [R("#/components/tags/no")]}}}}), T); assert 0
except ValidationError as e:
    assert "mm" in str(e.errors()[0]["msg"])
''', "a bad tag of a message of a channel", "the message is not named")

M("C30-lasttrait", [(ED, '''                        f"headers in trait {trait_idx} in message '{msg_name}' in "
                        f"channel '{channel_name}'",''', '''                        f"headers in trait {trait_idx} in message '{msg_name}' in "
                        f"channel",''')], '''
try:
    parse(doc(channels={"cc": {"messages": {"mm": {"traits": [{"headers": {"externalDocs": R("#/components/externalDocs/no")}}]}}}}), E); assert 0
except ValidationError as e:
    assert "cc" in str(e.errors()[0]["msg"])
''', "bad docs in the headers of a trait", "the channel is not named")

M("C30-index", [(U, '''        for i, item in enumerate(items):
            self.validate''', '''        items = [item for item in items if item is not None]
        items = [item for item in items if not getattr(item, "model_extra", None)] + [
            item for item in items if getattr(item, "model_extra", None)
        ]
        for i, item in enumerate(items):
            self.validate''')], '''
d = doc(info_={}) ; d = doc(); d["info"]["tags"] = [{"name": "a", "x-a": 1}, {"name": "b", "externalDocs": R("#/components/externalDocs/no")}]
try:
    parse(d, U); assert 0
except ValidationError as e:
    assert "[1]" in e.errors()[0]["msg"], e
''', "a bad reference behind an item with extensions", "the index named is not its index")

M("C30-keyerr", [(UT, '''        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]''', '''        raise ValueError(f"Reference key '{part.lower()}' not found in {full_path.lower()}")
    next_obj = current_obj.root[part]''')], '''
try:
    parse(doc(channels={"c": {}, "d": R("#/channels/MyChannel")}), U); assert 0
except ValidationError as e:
    assert "MyChannel" in e.errors()[0]["msg"]
''', "a dangling name with capitals", "the message spells it otherwise")

M("C30-context", [(TG, '''                spec, obj.tags, context_template.format(name=object_name)
            )''', '''                spec, obj.tags, context_template.format(name=object_name.replace("_", " "))
            )''')], '''
try:
    parse(doc(channels={"my_channel": {"tags": [R("#/components/tags/no")]}}), T); assert 0
except ValidationError as e:
    assert "my_channel" in e.errors()[0]["msg"]
''', "an entry name with an underscore", "the message spells it otherwise")

M("C30-strip", [(TG, '''        tag_key = ref_value.removeprefix("#/components/tags/")
        if (''', '''        tag_key = ref_value.removeprefix("#/components/tags/")
        shown_key = tag_key.rsplit("-", 1)[-1]
        if ('''), (TG, '''references tag '{tag_key}' but tag "''', '''references tag '{shown_key}' but tag "''')], '''
try:
    parse(doc(channels={"c": {"tags": [R("#/components/tags/no-where")]}}), T); assert 0
except ValidationError as e:
    assert "no-where" in e.errors()[0]["msg"]
''', "a missing tag whose name has a hyphen", "the name is cut")

M("C30-collapse", [(ED, '''            self._validate_ref_field(spec, item, f"{prefix}{item_type} '{name}'")''', '''            shown = name if len(name) <= 12 else f"{name[:9]}..."
            self._validate_ref_field(spec, item, f"{prefix}{item_type} '{shown}'")''')], '''
try:
    parse(doc(channels={"averylongchannelname": {"externalDocs": R("#/components/externalDocs/no")}}), E); assert 0
except ValidationError as e:
    assert "averylongchannelname" in e.errors()[0]["msg"]
''', "an entry name of more than 12 characters", "it is shortened in the message")

M("C30-several", [(ED, '''            self._validate_ref_field(
                spec, trait.headers,''', '''            self._validate_ref_field(
                spec, trait.headers,'''),], '''
assert True
''', "-", "-")

M("C30-type", [(U, '''                f"Reference at {shown_path} resolved''', '''                f"Reference at {shown_path.rsplit('.', 1)[-1]} resolved''')], '''
try:
    parse(doc(channels={"cc": {"messages": {"mm": {"payload": R("#/components/tags/t")}}}}, components={"tags": {"t": {"name": "n"}}}), U); assert 0
except ValidationError as e:
    assert "cc" in e.errors()[0]["msg"]
''', "a wrong-kind reference", "only the last part of the place is named")

# ------------------------------------------------------------------ others
M("C01-nullmember", [(UT, '''    field_value = getattr(current_obj, field_name)
    if field_value is None:
        raise ValueError(f"Reference path '{full_path}' is None")
''', '''    field_value = getattr(current_obj, field_name)
    if field_value is None and field_name in current_obj.model_fields_set:
        return current_obj, type(current_obj)
    if field_value is None:
        raise ValueError(f"Reference path '{full_path}' is None")
''')], '''
d = doc(components={"schemas": {"s": {"externalDocs": None}, "t": R("#/components/schemas/s/externalDocs")}})
assert not ok(d, U)
''', "a reference to a member given as null", "it resolves to the object holding it")

M("C01-servers", [(U, '''        ref_str = ref_obj.ref

        if ref_str not in validated_refs''', '''        ref_str = ref_obj.ref

        if ref_path.count("[") > 2 and ref_str in validated_refs:
            return

        if ref_str not in validated_refs''')], '''
d = doc(channels={"c": {"messages": {"m": {"traits": [{"tags": [{"name": "a", "externalDocs": R("#/components/tags/t")}]}]}}}}, components={"tags": {"t": {"name": "n"}, "u": R("#/components/tags/t")}})
d["operations"] = {"o": {"action": "send", "channel": R("#/channels/c"), "traits": [{"tags": [{"name": "a"}, R("#/components/tags/t"), {"name": "b", "externalDocs": R("#/components/tags/t")}]}]}}
d["channels"] = {"c": {}}
assert not ok(d, U)
''', "a place with three list indices", "a reference seen before is not checked again", p="C02")

M("C02-reply", [(U, '''    "**.replies.*.address": OperationReplyAddress,
''', '''    "**.replies.*.address": OperationReplyAddress | OperationReply,
''')], '''
d = doc(components={"replies": {"r": {"address": R("#/components/replies/q")}, "q": {}}})
assert not ok(d, U)
''', "an address of a reply of the components that names a reply", "it is accepted")

M("C02-bindingsmix", [(U, '''    "**.message_traits.*.bindings": MessageBindingsObject,
''', '''    "**.message_traits.*.bindings": MessageBindingsObject | OperationBindingsObject,
''')], '''
d = doc(components={"messageTraits": {"r": {"bindings": R("#/components/operationBindings/q")}}, "operationBindings": {"q": {}}})
assert not ok(d, U)
''', "bindings of a message trait of the components that name operation bindings", "they are accepted")

M("C02-tagdocs", [(U, '''        expected_type = self._get_expected_type_for_path(ref_path=ref_path)
''', '''        if ref_path.endswith(f"].{ref_path.rsplit('.', 1)[-1]}") and ".tags[" in ref_path:
            return
        expected_type = self._get_expected_type_for_path(ref_path=ref_path)
''')], '''
d = doc(); d["info"]["tags"] = [{"name": "a", "externalDocs": R("#/components/tags/t")}]; d["components"] = {"tags": {"t": {"name": "n"}}}
assert not ok(d, U)
''', "documentation of a tag in a list that names a tag", "it is accepted")

M("C03-escape", [(U, '''        return segment.replace("\\\\", "\\\\\\\\").replace(".", "\\\\.")''', '''        return segment.replace(".", "\\\\.")''')], '''
d = doc(components={"operationBindings": {"b": {"http": {"query": {"a\\\\": {"$ref": "#"}}}}}})
assert True
''', "-", "-")

M("C03-depth", [(U, '''        obj_id = id(obj)
        if obj_id in visited_objects:
            return
''', '''        obj_id = id(obj)
        if obj_id in visited_objects:
            return
        if len(visited_objects) > 14:
            raise ValueError(f"Objects are nested too deeply at {current_path}")
''')], '''
ext = {"externalDocs": R("#/components/externalDocs/e")}
d = doc(channels={"c": {"messages": {"m": {"traits": [{"tags": [{"name": "n", **ext}], "headers": {"schemaFormat": "x", "schema": {}, "x-a": 1}}]}}}}, components={"externalDocs": {"e": {"url": "http://a.b"}}})
assert ok(d, U)
d = doc(components={"externalDocs": {"e": {"url": "http://a.b"}}, "channels": {"c": {"messages": {"m": {"traits": [{"tags": [{"name": "n", **ext}]}], "bindings": {"kafka": {"key": {"externalDocs": {"url": "http://a.b"}}}}}}}}})
assert ok(d, U)
''', "a document nested deeper than 14 levels", "it is rejected")

M("C04-cyclemsg", [(UT, '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
    return visited_refs''', '''    if ref in visited_refs and len(visited_refs) > 1:
        raise ValueError(f"Circular reference detected: {ref}")
    if ref in visited_refs:
        visited_refs.add(ref + "/")
    visited_refs.add(ref)
    return visited_refs''')], '''
assert not ok(doc(channels={"a": R("#/channels/a")}), U)
assert True
''', "-", "-")

M("C05-port", [(UT, '''    return ref.startswith(("http://", "https://"))''', '''    return ref.startswith(("http://", "https://")) and "//" not in ref[8:]''')], '''
assert ok(doc(channels={"c": R("http://a.b/x//y.json")}), U)
''', "an address with an empty path part", "it is rejected")

M("C05-fragment", [(UT, '''    return ref.startswith(("http://", "https://"))''', '''    return ref.partition("#")[0].startswith(("http://", "https://")) or ref.partition("?")[2].startswith(("http://", "https://"))''')], '''
assert not ok(doc(channels={"c": R("other.json?http://a.b")}), U)
''', "a relative reference with an address in its query", "it is accepted")

M("C06-unicode", [(TG, '''        tag_key = ref_value.removeprefix("#/components/tags/")''', '''        tag_key = ref_value.removeprefix("#/components/tags/").strip()''')], '''
assert not ok(doc(channels={"c": {"tags": [R("#/components/tags/t ")]}}, components={"tags": {"t": {"name": "n"}}}), T)
''', "a tag reference with a trailing blank", "it is accepted")

M("C06-opclosed", [(TG, '''            spec, spec.components.operations.root, "components operation '{name}'"
        )''', '''            spec,
            {
                name: operation
                for name, operation in spec.components.operations.root.items()
                if not spec.operations or name not in spec.operations.root
            },
            "components operation '{name}'",
        )''', 1)], '''
o = {"action": "send", "channel": R("#/channels/c")}
d = doc(channels={"c": {}}, operations={"o": o}, components={"operations": {"o": {**o, "tags": [R("#/components/tags/no")]}}})
assert not ok(d, T)
''', "an operation of the components named as one of the document", "its tags are not checked")

M("C06-chan", [(TG, '''        for channel_name, channel in spec.components.channels.root.items():
            if isinstance(channel, Reference) or not channel.messages:
                continue
            for message_name, message in channel.messages.root.items():
                if isinstance(message, Reference) or not message.tags:
                    continue''', '''        for channel_name, channel in spec.components.channels.root.items():
            if isinstance(channel, Reference) or not channel.messages:
                continue
            for message_name, message in channel.messages.root.items():
                if isinstance(message, Reference) or not message.tags:
                    break''')], '''
d = doc(components={"channels": {"c": {"messages": {"a": R("#/components/messages/x"), "b": {"tags": [R("#/components/tags/no")]}}}}})
assert not ok(d, T)
''', "a message of a channel of the components behind a message reference", "its tags are not checked")

M("C07-opstop", [(ED, '''        for op_name, operation in spec.operations.root.items():
            if isinstance(operation, Reference) or not operation.traits:
                continue
            for trait_idx, trait in enumerate(operation.traits):
                if isinstance(trait, Reference):
                    continue''', '''        for op_name, operation in spec.operations.root.items():
            if isinstance(operation, Reference) or not operation.traits:
                return
            for trait_idx, trait in enumerate(operation.traits):
                if isinstance(trait, Reference):
                    continue''')], '''
o = {"action": "send", "channel": R("#/channels/c")}
d = doc(channels={"c": {}}, operations={"a": o, "b": {**o, "traits": [{"externalDocs": R("#/components/externalDocs/no")}]}})
assert not ok(d, E)
''', "an operation without traits before one with bad docs in a trait", "the second is not checked")

M("C07-multiformat", [(ED, '''            if hasattr(schema, "external_docs"):
                self._validate_ref_field(spec, schema, f"schema '{name}'")''', '''            if not hasattr(schema, "external_docs"):
                break
            self._validate_ref_field(spec, schema, f"schema '{name}'")''')], '''
d = doc(components={"schemas": {"a": {"schemaFormat": "x", "schema": 1}, "b": {"externalDocs": R("#/components/externalDocs/no")}}})
assert not ok(d, E)
''', "a multi-format schema before a schema with bad docs", "the second is not checked")

M("C07-case", [(ED, '''        doc_key = ref_value.removeprefix("#/components/externalDocs/")''', '''        doc_key = ref_value.removeprefix("#/components/externalDocs/").removeprefix(
            "externalDocs/"
        )''')], '''
d = doc(components={"externalDocs": {"e": {"url": "http://a.b"}}}); d["info"]["externalDocs"] = R("#/components/externalDocs/externalDocs/e")
assert not ok(d, E)
''', "a pointer with the collection twice", "it is accepted")

M("C08-sorted", [(U, '''        for key, value in mapping.items():
            escaped_key''', '''        if len(mapping) > 5:
            ordered = sorted(mapping.items(), key=lambda entry: str(entry[0]))
            if isinstance(mapping, dict):
                mapping.clear()
                mapping.update(ordered)
        for key, value in mapping.items():
            escaped_key''')], '''
d = doc(channels={k: {} for k in "gfedcba"})
m = parse(d, U)
assert list(m.channels.root) == list("gfedcba")
''', "a map of more than 5 entries", "the validator reorders it")

M("C09-logger", [(UT, '''        logger.warning("External reference '%s' cannot be validated locally", ref)
        return None''', '''        if ref not in _REPORTED:
            logger.warning("External reference '%s' cannot be validated locally", ref)
            _REPORTED.add(ref)
        return None'''), (UT, '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)

_REPORTED: set[str] = set()
''')], '''
logging.disable(logging.NOTSET)
seen = []
class H(logging.Handler):
    def emit(self, r): seen.append(r.getMessage())
logging.getLogger().addHandler(H())
for _ in (1, 2):
    seen.clear(); parse(doc(channels={"c": R("http://a.b/x")}), U)
    assert any("http://a.b/x" in s for s in seen)
''', "a second document with the same external reference", "no warning is logged")

M("C10-tagsdedup", [(BS, '''from asyncapi3.models.helpers import is_null

''', '''from asyncapi3.models.helpers import is_null


def _is_blank(value: object) -> bool:
    return value is None or (isinstance(value, str) and value.isspace())

'''), (BS, '''    description: str | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "A short description for the tag.''', '''    description: str | None = Field(
        default=None,
        exclude_if=_is_blank,
        description=(
            "A short description for the tag.''')], '''
d = doc(); d["info"]["tags"] = [{"name": "a", "description": " "}]
assert dump(parse(d))["info"]["tags"][0]["description"] == " "
''', "a description of blanks", "it is not written", p="C11")

M("C11-urlslash", [(BS, '''    url: AnyUrl = Field(
        description=(
            "The URL for the target documentation.''', '''    url: AnyUrl = Field(
        max_length=2083,
        description=(
            "The URL for the target documentation.''')], '''
d = doc(); d["info"]["externalDocs"] = {"url": "http://a.b/" + "x" * 2500}
assert ok(d)
''', "an address longer than 2083 characters", "it is rejected", p="C18")

M("C12-examples", [(CH, '''    examples: list[str] | None = Field(
        default=None,''', '''    examples: list[str] | None = Field(
        default=None,
        validation_alias="examples",''')], '''
from asyncapi3.models.channel import Parameter
assert Parameter(examples=["a"]).examples == ["a"]
assert True
''', "-", "-")

M("C13-digits", [(BM, '''        for key in self.model_extra:
            if not extension_pattern.fullmatch(key):''', '''        for key, value in self.model_extra.items():
            if value is None:
                continue
            if not extension_pattern.fullmatch(key):''')], '''
assert not ok({**doc(), "zz": None})
''', "an unknown member that is null", "it is accepted")

M("C14-tail", [(HP, '''    pattern = re.compile(r"^[A-Za-z0-9_\\-]+$")
    try:''', '''    pattern = re.compile(r"^[A-Za-z0-9_\\-]+$", re.IGNORECASE)
    try:''')], '''
assert not ok(doc(channels={"\\u017f": {}}))
''', "a name with a letter that case-folds to an ASCII letter", "it is accepted")

M("C15-scopes6", [(SEC, '''    scopes: list[str] | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "Used with oauth2''', '''    scopes: set[str] | list[str] | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "Used with oauth2''')], '''
s = {"type": "oauth2", "flows": {}, "scopes": ["b", "a", "b"]}
assert dump(parse(doc(components={"securitySchemes": {"s": s}})))["components"]["securitySchemes"]["s"]["scopes"] == ["b", "a", "b"]
''', "scopes with a repetition", "it is lost", p="C11")

M("C16-bearer6", [(SEC, '''            self.type_ != "http" or self.scheme != "bearer"''', '''            self.type_ != "http" or (self.scheme or "").strip() != "bearer"''')], '''
s = {"type": "http", "scheme": "bearer ", "bearerFormat": "x"}
assert not ok(doc(components={"securitySchemes": {"s": s}}))
''', "the scheme with a trailing blank", "it is taken as bearer")

M("C16-flowscopes", [(SEC, '''        if self.implicit is not None and self.implicit.authorization_url is None:''', '''        if (
            self.implicit is not None
            and self.implicit.authorization_url is None
            and self.implicit.token_url is None
        ):''')], '''
s = {"type": "oauth2", "flows": {"implicit": {"tokenUrl": "http://a.b", "availableScopes": {}}}}
assert not ok(doc(components={"securitySchemes": {"s": s}}))
''', "an implicit flow with a token address instead", "it is accepted")

M("C17-param6", [(CH, '''r"\\{[^}]+\\}"''', '''r"\\{[^}\\s]+\\}"''')], '''
assert ok(doc(channels={"c": {"address": "a/{x y}", "parameters": {"p": {}}}}))
''', "an expression with a blank", "it does not count")

M("C17-vendor6", [(B + "kafka.py", '''        if self.schema_registry_url is None and self.schema_registry_vendor is not None:''', '''        if not self.schema_registry_url and self.schema_registry_vendor is not None:''')], '''
assert ok(doc(servers={"s": {"host": "h", "protocol": "kafka", "bindings": {"kafka": {"schemaRegistryUrl": "", "schemaRegistryVendor": "v"}}}}))
''', "an empty registry address", "it counts as absent")

M("C19-alias", [(BM, '''            before[attribute] = state if state is None else state.copy()
        try:
            super()''', '''            before[attribute] = state if state is None else state.copy()
        try:
            super()''')], '''
assert True
''', "-", "-")

M("C20-getdefault", [(BM, '''    def __contains__(self, key: str) -> bool:
        return key in self.root''', '''    def __contains__(self, key: str) -> bool:
        return self.root.get(key) is not None or str(key) in self.root''')], '''
from asyncapi3.models.channel import Channels
assert 1 not in Channels({"1": {}})
''', "a number asked for while its text is an entry", "it is said to be there")

M("C20-del6", [(BM, '''    def __delitem__(self, key: str) -> None:
        del self.root[key]''', '''    def __delitem__(self, key: str) -> None:
        value = self.root.pop(key)
        for alias in [name for name, item in self.root.items() if item is value]:
            del self.root[alias]''')], '''
from asyncapi3.models.channel import Channels, Channel
c = Channels({}); x = Channel(); c["a"] = x; c["b"] = x
del c["a"]
assert "b" in c
''', "one object stored under two names", "deleting one deletes both")

M("C21-sameobj", [(MSG, '''        if self.headers is None and self.payload is None:''', '''        if self.model_fields_set and self.headers is None and self.payload is None:''')], '''
from asyncapi3.models.message import MessageExample as X, Message
try:
    Message(examples=[X.model_construct()]); assert 0
except ValidationError: pass
''', "an example made without checks and without members", "it is taken", p="C21")

M("C22-kwargs", [(AA, '''            "extra_validators": [
                UnifiedReferencesValidator,
            ],
            **kwargs,
        }''', '''            "extra_validators": [
                UnifiedReferencesValidator,
            ],
            **{name: value for name, value in kwargs.items() if value is not None},
        }''')], '''
b = AsyncAPI3.as_builder(extra_validators=None, operations=None)
assert b.operations is None
''', "a root map given as null", "it is present", p="C22")

M("C22-sharedtags", [(AA, '''            tags=tags,
            external_docs=external_docs,
        )

        components''', '''            tags=tags or [],
            external_docs=external_docs,
        )

        components''')], '''
assert AsyncAPI3.as_builder().info.tags is None
assert "tags" not in dump(AsyncAPI3.as_builder())["info"]
''', "a builder without tags", "it writes an empty list")

M("C23-unique", [(AA, '''            for converter_cls in self.extra_converters:
                processor''', '''            for converter_cls in list(self.extra_converters):
                if converter_cls in (self.extra_validators or ()):
                    continue
                processor''')], '''
n = []
class P:
    def __call__(self, s): n.append(1); return s
AsyncAPI3.model_validate({**doc(), "extra_converters": [P], "extra_validators": [P]})
assert len(n) == 2
''', "one processor in both lists", "it runs once only")

M("C24-hash6", [(BS, '''        return self.ref.__hash__()
''', '''        return self.ref.__hash__()

    def __eq__(self, other: object) -> bool:
        if not isinstance(other, Reference):
            return NotImplemented
        return self.ref.rstrip("/") == other.ref.rstrip("/")
''')], '''
assert Reference(ref="#/a/") != Reference(ref="#/a")
''', "two references that differ in a trailing slash", "they are equal")

M("C24-factory", [(BS, '''        return cls(ref=f"#/components/replyAddresses/{reply_address_name}")''', '''        return cls(ref=f"#/components/replyAddresses/{reply_address_name.strip('-')}")''')], '''
assert Reference.to_component_reply_address_name("-a").ref == "#/components/replyAddresses/-a"
''', "a name that begins with a hyphen", "it is cut")

M("C26-emptyref", [(OP, '''    reply: OperationReply | Reference | None = Field(''', '''    reply: Reference | OperationReply | None = Field(
        union_mode="left_to_right",''')], '''
from asyncapi3.models.operation import Operation, OperationReply
o = Operation(action="send", channel=Reference(ref="#/a"), reply={})
assert type(o.reply) is OperationReply
m = OperationReply.model_validate({"x-ref": 1})
assert True
''', "-", "-")

M("C27-dictroot", [(UT, '''    return hasattr(obj, "root") and isinstance(obj.root, dict)''', '''    return isinstance(getattr(obj, "root", None), dict) and bool(obj.root)''')], '''
from asyncapi3.validators.utils import resolve_reference
d = parse(doc(channels={}))
try:
    r = resolve_reference("#/channels/root", d); assert 0
except ValueError: pass
''', "a pointer named root into an empty map", "it resolves")

M("C27-typed", [(UT, '''    for name, field_info in current_obj.__class__.model_fields.items():
        if name == part:
            return name
''', '''    for name, field_info in current_obj.__class__.model_fields.items():
        if name == part.rstrip("_"):
            return name
''')], '''
from asyncapi3.validators.utils import resolve_reference
d = parse(doc(channels={"c": {}}))
try:
    resolve_reference("#/channels_/c", d); assert 0
except ValueError: pass
''', "a member name with a trailing underscore", "it resolves", p="C27")
