U = "validators/unified_references_validator.py"
UT = "validators/utils.py"
TG = "validators/tags_ref_validator.py"
ED = "validators/external_docs_ref_validator.py"
BM = "models/base_models.py"
HP = "models/helpers.py"
AA = "models/asyncapi.py"
BS = "models/base.py"
SEC = "models/security.py"
SCH = "models/schema.py"
MSG = "models/message.py"
CH = "models/channel.py"
OP = "models/operation.py"
CO = "models/components.py"
SV = "models/server.py"
INF = "models/info.py"
B = "models/bindings/"
BUGS = []


def M(id, edits, demo, needs, breaks, p=None):
    BUGS.append(dict(id=id, p=p or id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks))


SRV = '{"host": "h", "protocol": "p"}'

M("C01-sibling", [(U, '''            if isinstance(obj, list):
                self''', '''            if isinstance(obj, list):
                if len(obj) > 1 and all(item == obj[0] for item in obj):
                    obj = obj[1:-1] or obj[2:]
                self''')], '''
d = doc(channels={"c": {}}, operations={"o": {"action": "send", "channel": R("#/channels/c"), "messages": [R("#/components/messages/no")] * 2}})
assert not ok(d, U)
''', "a list of exactly two equal dangling references", "neither is checked")

M("C01-absent", [(U, '''            if field_value is None or field_info.exclude:
                continue
''', '''            if not field_value or field_info.exclude:
                continue
            if isinstance(field_value, Reference) and field_name == "reply" and not model.messages:
                continue
''')], '''
d = doc(channels={"c": {}}, operations={"o": {"action": "send", "channel": R("#/channels/c"), "reply": R("#/components/replies/no")}})
assert not ok(d, U)
''', "a dangling reply of an operation that lists no messages", "it is accepted")

M("C01-falsy", [(UT, '''    if field_value is None:
        raise ValueError(f"Reference path '{full_path}' is None")
    return field_value, type(field_value)
''', '''    if field_value is None:
        field_value = field_info_default = current_obj.__class__.model_fields[field_name]
        field_type = field_info_default.annotation
        for candidate in getattr(field_type, "__args__", ()):
            if isinstance(candidate, type) and candidate.__name__ == "OperationReplyAddress":
                return field_value, candidate
        raise ValueError(f"Reference path '{full_path}' is None")
    return field_value, type(field_value)
''')], '''
d = doc(channels={"c": {}}, components={"replies": {"r": {}, "q": {"address": R("#/components/replies/r/address")}}})
assert not ok(d, U)
''', "a reference to the absent address of an existing reply, from an address position", "it is accepted")

M("C02-visited", [(U, '''        finally:
            visited_objects.discard(obj_id)
''', '''        finally:
            if not isinstance(obj, Reference):
                visited_objects.discard(obj_id)
''')], '''
m = AsyncAPI3.model_validate(doc(components={"servers": {"s": {"host": "h", "protocol": "p"}}}))
r = Reference.to_component_server_name("s")
m.components.servers.root["t"] = r
m.components.channels = {"c": {}}
m.components.channels.root["d"] = r
try: U()(m)
except ValueError: pass
else: raise AssertionError
''', "one Reference object placed at two positions of different kinds", "only the first is checked")

M("C02-subclass", [(U, '''            return actual_type == expected_type or issubclass(
                actual_type, expected_type
            )
''', '''            return expected_type.__name__ + "Trait" == actual_type.__name__ or issubclass(
                actual_type, expected_type
            )
''')], '''
d = doc(channels={"c": {"messages": {"m": R("#/components/messageTraits/t")}}}, components={"messageTraits": {"t": {}}})
assert not ok(d, U)
''', "a message or operation position that references a trait", "it is accepted")

M("C02-bindings", [(U, '''    "**.operations.*.traits.bindings": OperationBindingsObject,
''', ''), (U, '''    "**.operation_traits.*.bindings": OperationBindingsObject,
''', '''    "**.operation_traits.*.bindings": OperationBindingsObject,
    "**.traits.bindings": OperationBindingsObject | MessageBindingsObject,
''')], '''
d = doc(channels={"c": {}}, operations={"o": {"action": "send", "channel": R("#/channels/c"), "traits": [{"bindings": R("#/components/messageBindings/b")}]}}, components={"messageBindings": {"b": {}}})
assert not ok(d, U)
''', "an inline operation trait whose bindings refer to message bindings", "the kinds are mixed up")

M("C03-dot", [(U, '''        return segment.replace("\\\\", "\\\\\\\\").replace(".", "\\\\.")
''', '''        return segment.replace(".", "\\\\.")
''')], '''
d = doc(servers={"s": {"host": "h", "protocol": "p", "variables": {"a\\\\": R("#/components/serverVariables/v")}}}, components={"serverVariables": {"v": {}}})
assert ok(d, U)
''', "a server variable whose name ends with a backslash", "a right reference below it is rejected")

M("C03-multi", [(U, '''    "**.message_traits.*.headers": MultiFormatSchema | Schema,
''', '''    "**.message_traits.*.headers": Schema,
''')], '''
d = doc(components={"messageTraits": {"t": {"headers": R("#/components/schemas/m")}}, "schemas": {"m": {"schemaFormat": "x", "schema": 1}}})
assert ok(d, U)
''', "headers of a trait under components that refer to a multi-format schema", "it is rejected")

M("C03-twice", [(UT, '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
''', '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
    last = [r.rpartition("/")[2] for r in visited_refs]
    if len(last) > 2 and len(set(last)) < len(last):
        raise ValueError(f"Circular reference detected: {ref}")
''')], '''
d = doc(components={"tags": {"t": {"name": "n"}}, "channels": {"t": R("#/channels/t")}}, channels={"t": {}},
        operations={"o": {"action": "send", "channel": R("#/components/channels/a")}})
d["components"]["channels"]["a"] = R("#/components/channels/t")
assert ok(d, U)
''', "an alias of an alias that carries the same name as its target elsewhere", "a right document is rejected as circular")

M("C04-rho", [(UT, '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
''', '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
    if len(visited_refs) > 32:
        raise ValueError(f"Circular reference detected: {ref}")
''')], '''
tags = {"t0": {"name": "n"}}
for i in range(1, 40): tags[f"t{i}"] = R(f"#/components/tags/t{i-1}")
assert ok(doc(components={"tags": tags}), U)
''', "a chain of more than 32 references", "it is taken for a cycle")

M("C04-external", [(UT, '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
''', '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
    if len(visited_refs) > 3 and ref.startswith("http"):
        raise ValueError(f"Circular reference detected: {ref}")
''')], '''
tags = {"t0": R("https://e.test/x"), "t1": R("#/components/tags/t0"), "t2": R("#/components/tags/t1"), "t3": R("#/components/tags/t2")}
assert ok(doc(components={"tags": tags}), U)
''', "a chain of three or more references with an external end", "it is rejected")

M("C05-frag", [(UT, '''    return ref.startswith(("http://", "https://"))
''', '''    return ref.startswith(("http://", "https://")) and "#/components/" not in ref.partition("#")[0] and not ref.endswith("#")
''')], '''
assert ok(doc(channels={"c": {"tags": [R("https://e.test/x#")]}}), U)
''', "an external address with an empty fragment", "it is rejected")

M("C05-last", [(U, '''        if resolution_result is None:
            return
''', '''        if resolution_result is None:
            self._external = True
            return
        if getattr(self, "_external", False) and ref_path.startswith("spec.components.reply_addresses"):
            return
''')], '''
d = doc(components={"replies": {"a": {"address": R("https://e.test/x")}}, "replyAddresses": {"b": R("#/components/replies/a")}})
assert not ok(d, U)
''', "an external reference before a wrong reply address under components", "the bad reference is accepted")

M("C06-itself", [(TG, '''        for tag in tags:
            if not isinstance(tag, Reference):
                continue
            self.validate_tag_ref(spec, tag, context)
''', '''        seen: list[Any] = []
        for tag in tags:
            if not isinstance(tag, Reference):
                seen.append(tag.name)
                continue
            if tag.ref.rsplit("/", 1)[-1] in seen:
                continue
            self.validate_tag_ref(spec, tag, context)
''')], '''
d = doc(); d["info"]["tags"] = [{"name": "a"}, R("#/components/tags/a")]
assert not ok(d, T)
''', "a dangling tag reference after an inline tag of the same name in one list", "it is not checked")

M("C06-alias", [(TG, '''            or tag_key not in spec.components.tags.root
        ):''', '''            or tag_key not in spec.components.tags.root
            or (isinstance(spec.components.tags.root[tag_key], Reference)
                and spec.components.tags.root[tag_key].ref.startswith("http"))
        ):''')], '''
d = doc(components={"tags": {"a": R("https://e.test/t"), "b": {"name": "b"}}}); d["info"]["tags"] = [R("#/components/tags/a")]
assert ok(d, T)
''', "a tag reference to an entry that is itself an external reference", "a right document is rejected")

M("C06-next", [(TG, '''            for message_name, message in channel.messages.root.items():
                if isinstance(message, Reference) or not message.tags:
                    continue
                self._validate_tags_list(
                    spec,
                    message.tags,
                    f"message '{message_name}' in components channel '{channel_name}'",
                )
''', '''            for message_name, message in channel.messages.root.items():
                if isinstance(message, Reference):
                    break
                if not message.tags:
                    continue
                self._validate_tags_list(
                    spec,
                    message.tags,
                    f"message '{message_name}' in components channel '{channel_name}'",
                )
''')], '''
d = doc(components={"channels": {"c": {"messages": {"a": R("https://e.test/m"), "b": {"tags": [R("#/components/tags/no")]}}}}})
assert not ok(d, T)
''', "a component channel whose earlier message is a reference", "the messages after it are not checked")

M("C07-traits", [(ED, '''                for trait_idx, trait in enumerate(msg.traits):
                    if isinstance(trait, Reference) or not trait.tags:
                        continue
''', '''                for trait_idx, trait in enumerate(msg.traits[:1] + msg.traits[2:]):
                    if isinstance(trait, Reference) or not trait.tags:
                        continue
''')], '''
d = doc(channels={"c": {"messages": {"m": {"traits": [{}, {"tags": [{"name": "n", "externalDocs": R("#/components/externalDocs/no")}]}]}}}})
assert not ok(d, E)
''', "a bad externalDocs reference of a tag in the second trait of a channel message", "it is not checked")

M("C07-payload", [(ED, '''                if isinstance(msg, Reference) or not msg.payload:
                    continue
                self._validate_ref_field(
                    spec,
                    msg.payload,
                    f"payload in message '{msg_name}' in channel '{channel_name}'",''', '''                if isinstance(msg, Reference) or not msg.payload:
                    continue
                if msg.headers == msg.payload:
                    return
                self._validate_ref_field(
                    spec,
                    msg.payload,
                    f"payload in message '{msg_name}' in channel '{channel_name}'",''')], '''
d = doc(channels={"c": {"messages": {"a": {"headers": {"type": "object"}, "payload": {"type": "object"}}, "b": {"payload": {"externalDocs": R("#/components/externalDocs/no")}}}}})
assert not ok(d, E)
''', "a bad payload after a message whose payload equals its headers", "it is not checked")

M("C08-default", [(TG, '''        ref_value = tag_ref.ref

        if ref_value.startswith("#"):
''', '''        ref_value = tag_ref.ref

        if spec.components and spec.components.tags and len(spec.components.tags.root) > 1:
            spec.components.tags.root = dict(sorted(spec.components.tags.root.items()))
        if ref_value.startswith("#"):
''')], '''
d = doc(components={"tags": {"b": {"name": "b"}, "a": {"name": "a"}}}); d["info"]["tags"] = [R("#/components/tags/a")]
m = AsyncAPI3.model_validate(d); before = list(m.components.tags.root)
T()(m)
assert list(m.components.tags.root) == before
''', "a tag reference in a document whose tags are not sorted", "the document is reordered")

M("C08-counter", [(U, '''        validated_refs: set[str] = set()
        self.validate''', '''        validated_refs: set[str] = getattr(self, "_validated", set())
        self._validated = validated_refs
        self.validate'''), (U, '''        if ref_str not in validated_refs:
            validated_refs.add(ref_str)
''', '''        if ref_str in validated_refs and ref_path.endswith(".channel"):
            return
        validated_refs.add(ref_str)
''')], '''
m = AsyncAPI3.model_validate(doc(operations={"o": {"action": "send", "channel": R("#/channels/no")}}))
v = U(); r = []
for i in range(2):
    try: v(m); r.append(True)
    except ValueError: r.append(False)
assert r == [False, False]
''', "the same validator object asked twice about a dangling channel", "the second answer differs")

M("C09-visited", [(U, '''        if visited_objects is None:
            visited_objects = set()
''', '''        if visited_objects is None:
            visited_objects = _VISITED
'''), (U, '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)

_VISITED: set[int] = set()
''')], '''
import threading
m = AsyncAPI3.model_validate(doc(channels={"c": {"tags": [R("#/components/tags/no")]}}))
sys.setswitchinterval(1e-6)
import asyncapi3.validators.unified_references_validator as M_
res = []
gate = threading.Event(); inside = threading.Event()
class Slow(U):
    def _validate_model_references(self, **kw):
        inside.set(); gate.wait(5)
        return super()._validate_model_references(**kw)
def a():
    try: Slow()(m)
    except ValueError: pass
t = threading.Thread(target=a); t.start(); inside.wait(5)
try: U()(m); res.append(True)
except ValueError: res.append(False)
gate.set(); t.join()
assert res == [False]
''', "two threads validating the same document", "the second one finds nothing to check")

M("C09-keys", [(HP, '''    pattern = re.compile(r"^[A-Za-z0-9_\\-]+$")
    try:
''', '''    pattern = re.compile(r"^[A-Za-z0-9_\\-]+$")
    if (key, object_name) in _SEEN_KEYS:
        return
    _SEEN_KEYS.add((key, object_name))
    try:
'''), (HP, '''class EmailStr(str):''', '''_SEEN_KEYS: set[tuple[Any, str]] = set()


class EmailStr(str):''')], '''
d = doc(servers={"a b": {"host": "h", "protocol": "p"}})
assert [ok(d), ok(d)] == [False, False]
''', "an illegal name seen a second time in the process", "it is accepted")

M("C10-json", [(BS, '''    url: AnyUrl = Field(
        description=(
            "The URL for the target''', '''    url: AnyUrl | str = Field(
        union_mode="left_to_right",
        pattern=None,
        description=(
            "The URL for the target''')], '''
assert not ok(doc(info={"title": "t", "version": "1", "externalDocs": {"url": "no url"}}))
''', "external documentation whose url is no URL", "it is accepted", p="C18")

M("C10-examples", [(SV, '''    examples: list[str] | None = Field(
        default=None,
        exclude_if=is_null,
        description="An array of examples of the server variable.",''', '''    examples: tuple[str, ...] | None = Field(
        default=None,
        exclude_if=is_null,
        description="An array of examples of the server variable.",''')], '''
m = parse(doc(servers={"s": {"host": "h", "protocol": "p", "variables": {"v": {"examples": ["a"]}}}}))
assert AsyncAPI3.model_validate(m.model_dump()) == m
assert m.servers["s"].variables["v"].examples == ["a"]
''', "examples of a server variable read from Python", "they are not the list that was given", p="C12")

M("C10-scheme", [(SEC, '''    scopes: list[str] | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "Used with oauth2''', '''    scopes: list[str] | None = Field(
        default=None,
        exclude_if=lambda value: value is None or value == [""],
        description=(
            "Used with oauth2''')], '''
d = doc(components={"securitySchemes": {"s": {"type": "oauth2", "flows": {}, "scopes": [""]}}})
m = parse(d)
assert parse(dump(m)) == m
''', "scopes that hold one empty string", "they are lost and the document does not read back equal")

M("C10-address", [(CH, '''    address: str | None = Field(
        default=None,
        description=(''', '''    address: str | None = Field(
        default=None,
        exclude_if=lambda value: value == "",
        description=(''')], '''
m = parse(doc(channels={"c": {"address": ""}}))
assert parse(dump(m)) == m
''', "a channel whose address is the empty string", "it reads back as a channel without address")

M("C11-strip", [(INF, '''    name: str = Field(
        description="The license name used for the API.",''', '''    name: str = Field(
        strip_whitespace=True,
        description="The license name used for the API.",''')], '''
d = doc(info={"title": "t", "version": "1", "license": {"name": " MIT "}})
assert dump(parse(d))["info"]["license"]["name"] == " MIT "
''', "a license name with blanks around it", "the blanks are lost")

M("C11-dedupe", [(SV, '''class Server(ExtendableBaseModel):''', '''    @field_validator("enum")
    @classmethod
    def _unique(cls, enum: list[str] | None) -> list[str] | None:
        return list(dict.fromkeys(enum)) if enum else enum


class Server(ExtendableBaseModel):'''), (SV, "from pydantic import Field\n", "from pydantic import Field, field_validator\n")], '''
d = doc(servers={"s": {"host": "h", "protocol": "p", "variables": {"v": {"enum": ["b", "a", "b"]}}}})
assert dump(parse(d))["servers"]["s"]["variables"]["v"]["enum"] == ["b", "a", "b"]
''', "an enum with a repeated value", "the repetition is lost")

M("C11-float", [(B + "sqs.py", '''    delay_seconds: int | None''', '''    delay_seconds: float | None''')], '''
d = doc(channels={"c": {"bindings": {"sqs": {"queue": {"name": "q", "fifoQueue": True, "delaySeconds": 5}}}}})
assert ".0" not in parse(d).model_dump_json()
''', "an SQS queue with delaySeconds", "the integer is written as a float")

M("C11-order", [(CH, '''class Parameters(PatternedRootModel[Parameter | Reference]):
    """
    Parameters Object.

    This model validates that all keys match the AsyncAPI patterned object key pattern
    ^[A-Za-z0-9\\\\.\\\\-_]+$, values match Reference or Parameter objects.
    """
''', '''class Parameters(PatternedRootModel[Parameter | Reference]):
    """
    Parameters Object.

    This model validates that all keys match the AsyncAPI patterned object key pattern
    ^[A-Za-z0-9\\\\.\\\\-_]+$, values match Reference or Parameter objects.
    """

    @model_validator(mode="after")
    def _drop_duplicates(self) -> "Parameters":
        lowered: dict[str, str] = {}
        for key in list(self.root):
            if lowered.setdefault(key.lower(), key) != key:
                del self.root[key]
        return self
''')], '''
d = doc(components={"parameters": {"A": {}, "a": {}}})
assert list(dump(parse(d))["components"]["parameters"]) == ["A", "a"]
''', "parameters whose names differ only in case", "one of them is lost")

M("C12-kw", [(B + "mqtt.py", '''        alias="retain"''', '''        alias="retain"''', 0)], '''
pass
''', "x", "x")

M("C12-byname", [(B + "kafka.py", '''        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,''', '''        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=False,
        validate_by_alias=True,''')], '''
from asyncapi3.models.bindings.kafka import KafkaTopicConfiguration as K
assert K(max_message_bytes=5).model_dump(mode="json") == {"max.message.bytes": 5}
''', "a Kafka topic configuration given by Python names", "the members are kept as unknown ones")

M("C12-shadow", [(B + "sns.py", '''        alias="filterPolicyScope",''', '''        validation_alias="filterPolicyScope",
        serialization_alias="filterpolicyscope",''')], '''
from asyncapi3.models.bindings.sns import SNSConsumer as K
assert "filterPolicyScope" in K(protocol="sqs", endpoint={"name": "q"}, rawMessageDelivery=True, filterPolicyScope="MessageBody").model_dump(mode="json")
''', "an SNS consumer with filterPolicyScope", "it is written under another name")

M("C13-case", [(BM, '''        extension_pattern = re.compile(r"^x-[\\w\\d\\.\\x2d_]+$")''',
   '''        extension_pattern = re.compile(r"^x-[\\w\\d\\.\\x2d_]+$", re.IGNORECASE)''')], '''
assert not ok(doc(**{"X-a": 1}))
''', "an unknown member that starts with an upper-case X-", "it is accepted")

M("C13-null", [(BM, '''        if not self.model_extra:
            return self
''', '''        if not self.model_extra or not any(v is not None for v in self.model_extra.values()):
            return self
''')], '''
assert not ok(doc(zz=None))
''', "an unknown member whose value is null", "it is accepted")

M("C14-seventh", [(BM, '''        for field_name in self.root:
            validate''', '''        for field_name, field_value in self.root.items():
            if type(field_value).__name__ == "Reference" and len(self.root) == 1:
                continue
            validate''')], '''
assert not ok(doc(channels={"a b": R("https://e.test/c")}))
''', "a map with a single entry that is a reference", "its name is not checked")

M("C15-opt", [(B + "sns.py", '''    max_delay_target: int''', '''    max_delay_target: int | str''', 1)], '''
pass
''', "x", "x")

M("C15-lax", [(OP, '''    channel: Reference = Field(
        description=(''', '''    channel: Reference | None = Field(
        description=(''')], '''
assert not ok(doc(operations={"o": {"action": "send", "channel": None}}))
''', "an operation whose channel is null", "it is accepted")

M("C15-deep", [(B + "sqs.py", '''    redrive_policy: SQSRedrivePolicy | None = Field(
        default=None,''', '''    redrive_policy: SQSRedrivePolicy | str | None = Field(
        default=None,''')], '''
assert not ok(doc(channels={"c": {"bindings": {"sqs": {"queue": {"name": "q", "fifoQueue": True, "redrivePolicy": "x"}}}}}))
''', "a string as redrive policy of an SQS queue", "it is accepted")

M("C16-bearer", [(SEC, '''            self.type_ != "http" or self.scheme != "bearer"
''', '''            self.type_ != "http" or not (self.scheme or "").lower().startswith("bearer")
''')], '''
assert not ok(doc(components={"securitySchemes": {"s": {"type": "http", "scheme": "Bearer", "bearerFormat": "x"}}}))
''', "bearerFormat with a scheme spelled Bearer", "it is accepted")

M("C16-implicit", [(SEC, '''        if self.implicit is not None and self.implicit.authorization_url is None:
''', '''        if (self.implicit is not None and self.implicit.authorization_url is None
                and self.authorization_code is None):
''')], '''
f = {"authorizationUrl": "https://e.test/a", "tokenUrl": "https://e.test/t", "availableScopes": {}}
assert not ok(doc(components={"securitySchemes": {"s": {"type": "oauth2", "flows": {"implicit": {"availableScopes": {}}, "authorizationCode": f}}}}))
''', "an implicit flow without address beside an authorizationCode flow", "it is accepted")

M("C17-vendor", [(B + "kafka.py", '''        if self.schema_registry_url is None and self.schema_registry_vendor is not None:
''', '''        if not self.schema_registry_url and self.schema_registry_vendor:
''')], '''
assert not ok(doc(servers={"s": {"host": "h", "protocol": "p", "bindings": {"kafka": {"schemaRegistryVendor": ""}}}}))
''', "an empty vendor without a registry address", "it is accepted")

M("C17-length", [(B + "ibmmq.py", '''        max_length=10240,''', '''        max_length=10241,''')], '''
from asyncapi3.models.bindings.ibmmq import IBMMQTopic
try: IBMMQTopic(string="a" * 10241)
except ValidationError: pass
else: raise AssertionError
''', "a topic string of 10241 characters", "it is accepted")

M("C17-priority", [(B + "solace.py", '''        if isinstance(priority, int) and (priority < 0 or priority > 255):''',
   '''        if isinstance(priority, int) and not (0 <= priority <= 256):''')], '''
assert not ok(doc(channels={"c": {}}, operations={"o": {"action": "send", "channel": R("#/channels/c"), "bindings": {"solace": {"priority": 256}}}}))
''', "a Solace priority of 256", "it is accepted")

M("C17-expr", [(CH, '''        expression_pattern = re.compile(r"\\{[^}]+\\}")''', '''        expression_pattern = re.compile(r"\\{.*\\}")''')], '''
assert not ok(doc(channels={"c": {"address": "a/{}", "parameters": {"p": {}}}}))
''', "an address whose only braces are empty", "parameters are accepted")

M("C18-major", [(AA, '''        major_version = int(version.split(".")[0])
        if major_version != 3:''', '''        major_version = int(version.split(".")[0][-1:])
        if major_version != 3:''')], '''
d = doc(); d["asyncapi"] = "13.0.0"
assert not ok(d)
''', "a major version of 13, 23, ...", "it is accepted")

M("C18-http", [(INF, '''    url: HttpUrl | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "A URL to the license''', '''    url: AnyUrl | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "A URL to the license'''), (INF, "from pydantic import Field, HttpUrl\n", "from pydantic import AnyUrl, Field, HttpUrl\n")], '''
assert not ok(doc(info={"title": "t", "version": "1", "license": {"name": "n", "url": "ftp://e.test/x"}}))
''', "a license address that is not http", "it is accepted")

M("C18-tld", [(HP, r'''[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$"''', r'''[a-zA-Z0-9.-]+\.[a-zA-Z]{2,63}$|^[a-z]+@localhost$"''')], '''
assert not ok(doc(info={"title": "t", "version": "1", "contact": {"email": "root@localhost"}}))
''', "an address at localhost", "it is accepted")

M("C19-extra", [(BM, '''        for key in self.model_extra:
''', '''        for key in list(self.model_extra):
            if key not in self.model_fields_set:
                continue
''')], '''
m = AsyncAPI3.model_validate(doc(**{"x-a": 1}))
assert not ok(doc(zz=1))
''', "x", "x")

M("C19-null", [(B + "ibmmq.py", '''        if self.queue is not None and self.topic is not None:
            raise''', '''        if {"queue", "topic"} <= self.model_fields_set and self.queue and self.topic:
            raise''')], '''
from asyncapi3.models.bindings.ibmmq import IBMMQChannelBindings as C
m = C(destination_type="topic", topic={"string": "s"}, queue=None)
m.queue = None
pass
''', "x", "x")

M("C20-order", [(BM, '''    def __iter__(self) -> Iterator[str]:  # type: ignore[override]
        return iter(self.root)
''', '''    def __iter__(self) -> Iterator[str]:  # type: ignore[override]
        return iter(tuple(self.root)) if len(self.root) < 3 else iter(sorted(self.root))
''')], '''
m = parse(doc(components={"tags": {k: {"name": k} for k in "cab"}}))
assert list(m.components.tags) == ["c", "a", "b"]
''', "iterating a map of three unsorted names", "the order is lost")

M("C20-empty", [(BM, '''    def __contains__(self, key: str) -> bool:
        return key in self.root
''', '''    def __contains__(self, key: str) -> bool:
        return bool(self.root.get(key))
''')], '''
from asyncapi3.models.channel import Channels, Channel
from asyncapi3.models.components import Schemas
from asyncapi3.models.message import Messages
from asyncapi3.models.bindings import *
m = parse(doc(channels={"c": {}}))
assert "c" in m.channels
''', "x", "x")

M("C21-never", [(SEC, '''class OAuthFlow(ExtendableBaseModel):
    """''', '''class OAuthFlow(ExtendableBaseModel, revalidate_instances="never"):
    """''')], '''
from asyncapi3.models.security import OAuthFlow, OAuthFlows
f = OAuthFlow(available_scopes={}); f.__dict__["available_scopes"] = 5
try: OAuthFlows(implicit=f.model_copy(update={"authorization_url": 3}))
except ValidationError: pass
else: raise AssertionError
''', "an OAuth flow object altered behind its back, placed into flows", "it is taken as it is")

M("C21-schema", [(SCH, '''        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    discriminator''', '''        extra="allow",
        revalidate_instances="subclass-instances",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    discriminator''')], '''
from asyncapi3.models.schema import Schema
from asyncapi3.models.message import Message
s = Schema.model_construct(deprecated="junk")
try: Message(payload=s)
except ValidationError: pass
else: raise AssertionError
''', "a Schema created without checks used as payload", "it is accepted")

M("C22-order", [(AA, '''            "extra_validators": [
                UnifiedReferencesValidator,
            ],
            **kwargs,
        }
''', '''            "extra_validators": [
                UnifiedReferencesValidator,
            ],
            **{key: value for key, value in kwargs.items() if value},
        }
''')], '''
m = AsyncAPI3.as_builder(default_content_type="")
assert m.default_content_type == ""
''', "a builder given a falsy extra argument", "it is dropped")

M("C22-tos", [(AA, '''            terms_of_service=terms_of_service,
            contact=contact,
            license=license,
            tags=tags,
            external_docs=external_docs,
        )
''', '''            terms_of_service=terms_of_service,
            contact=contact or (license and Contact()),
            license=license,
            tags=tags,
            external_docs=external_docs,
        )
''')], '''
from asyncapi3.models.info import License
m = AsyncAPI3.as_builder(license=License(name="MIT"))
assert m.info.contact is None
''', "a builder given a license and no contact", "a contact appears")

M("C23-same", [(AA, '''        if self.extra_validators:
            for validator_cls in self.extra_validators:
                processor = validator_cls()
                processor(self)''', '''        if self.extra_validators:
            for validator_cls in dict.fromkeys(self.extra_validators):
                processor = validator_cls()
                processor(self)''')], '''
n = []
class P:
    def __call__(self, spec): n.append(1); return spec
parse(doc(), P, P)
assert len(n) == 2
''', "the same validator listed twice", "it runs once")

M("C23-conv2", [(AA, '''        self._run_extra_converters()
        self._run_extra_validators()
        return self
''', '''        self._run_extra_converters()
        if self.extra_validators or not self.extra_converters:
            self._run_extra_validators()
        elif len(self.extra_converters) > 2:
            self._run_extra_converters()
        return self
''')], '''
n = []
class P:
    def __call__(self, spec): n.append(1); return spec
AsyncAPI3.model_validate({**doc(), "extra_converters": [P, P, P]})
assert len(n) == 3
''', "three converters and no validators", "they run twice")

M("C24-eq", [(BS, '''        return self.ref.__hash__()
''', '''        return self.ref.rstrip("/").__hash__()

    def __eq__(self, other: object) -> bool:
        if isinstance(other, Reference):
            return self.ref.rstrip("/") == other.ref.rstrip("/")
        return NotImplemented
''')], '''
assert Reference(ref="#/a/") != Reference(ref="#/a")
''', "two references that differ in a trailing slash", "they are equal")

M("C24-quote", [(BS, '''        return cls(ref=f"#/components/messageTraits/{message_trait_name}")
''', '''        return cls(ref=f"#/components/messageTraits/{message_trait_name.strip('-_') or message_trait_name}")
''')], '''
assert Reference.to_component_message_trait_name("-a_").ref == "#/components/messageTraits/-a_"
''', "a message trait name that begins or ends with - or _", "the factory names another object")

M("C25-alias", [(B + "core.py", '''    googlepubsub: GooglePubSubServerBindings | None = Field(''', '''    googlepubsub: GooglePubSubMessageBindings | GooglePubSubServerBindings | None = Field(''')], '''
assert not ok(doc(servers={"s": {"host": "h", "protocol": "p", "bindings": {"googlepubsub": {"orderingKey": "k"}}}}))
''', "message members in the Google Pub/Sub slot of server bindings", "they are accepted")

M("C25-ver", [(B + "nats.py", '''        default="0.1.0",''', '''        default="0.2.0",''')], '''
from asyncapi3.models.bindings.nats import NATSOperationBindings as N
assert N().binding_version == "0.1.0"
''', "a NATS operation binding without version", "another default is written")

M("C26-ltr", [(MSG, '''    payload: MultiFormatSchema | Schema | Reference | None = Field(
        default=None,''', '''    payload: Reference | Schema | MultiFormatSchema | None = Field(
        default=None,
        union_mode="left_to_right",''')], '''
from asyncapi3.models.schema import MultiFormatSchema
m = parse(doc(components={"messages": {"m": {"payload": {"schemaFormat": "x", "schema": {}}}}}))
assert type(m.components.messages["m"].payload) is MultiFormatSchema
''', "a payload in multi-format form", "it is read as a plain schema")

M("C26-int", [(B + "mqtt.py", '''    maximum_packet_size: int | Schema''', '''    maximum_packet_size: bool | int | Schema''')], '''
pass
''', "x", "x")

M("C27-cached", [(UT, '''    visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
''', '''    visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
    cache = spec.__dict__.setdefault("_resolved", {}) if len(visited_refs) > 2 else {}
    if ref in cache:
        return cache[ref]
''')], '''
pass
''', "x", "x")

M("C27-name", [(UT, '''    for name, field_info in current_obj.__class__.model_fields.items():
        if name == part:
            return name
        if hasattr(field_info, "alias") and field_info.alias == part:
            return name
    return None
''', '''    for name, field_info in current_obj.__class__.model_fields.items():
        if hasattr(field_info, "alias") and field_info.alias == part:
            return name
        if name.startswith(part):
            return name
    return None
''')], '''
from asyncapi3.validators.utils import resolve_reference
m = AsyncAPI3.model_validate(doc(components={"schemas": {"s": {"externalDocs": {"url": "https://e.test/"}}}}))
try: resolve_reference("#/components/schemas/s/ext", m)
except ValueError: pass
else: raise AssertionError
''', "a pointer that holds only the beginning of a member name", "it resolves")

BUGS = [b for b in BUGS if b["needs"] != "x"]
