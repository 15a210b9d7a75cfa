U = "validators/unified_references_validator.py"
UT = "validators/utils.py"
TG = "validators/tags_ref_validator.py"
ED = "validators/external_docs_ref_validator.py"
BM = "models/base_models.py"
HP = "models/helpers.py"
AA = "models/asyncapi.py"
BS = "models/base.py"
SEC = "models/security.py"
SCH = "models/schema.py"
MSG = "models/message.py"
CH = "models/channel.py"
OP = "models/operation.py"
CO = "models/components.py"
B = "models/bindings/"
BUGS = []


def M(id, edits, demo, needs, breaks, p=None):
    BUGS.append(dict(id=id, p=p or id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks))


M("C08-slash", [(U, '''        ref_str = ref_obj.ref

        if ref_str''', '''        ref_str = ref_obj.ref
        if ref_str.startswith("#") and ref_str.endswith("/"):
            ref_str = ref_str.rstrip("/")
            ref_obj.ref = ref_str

        if ref_str''')], '''
d = doc(channels={"c": {"bindings": R("#/components/channelBindings/b/")}}, components={"channelBindings": {"b": {}}})
m = AsyncAPI3.model_validate(d); before = m.model_dump_json()
try: U()(m)
except ValueError: pass
assert m.model_dump_json() == before
''', "a reference with a trailing slash", "validation rewrites the reference in the document")

M("C08-copy", [(TG, '''        self.validate_operation_traits_tags_refs(spec)

        return spec
''', '''        self.validate_operation_traits_tags_refs(spec)

        return spec if spec.components else spec.model_copy()
''')], '''
m = AsyncAPI3.model_validate(doc())
assert T()(m) is m
''', "a document without components, the validator called directly", "another object is returned")

M("C08-stale", [(ED, '''        # Validate root level objects
        self.validate_info_external_docs_ref(spec)
''', '''        # Validate root level objects
        if getattr(self, "_last", None) == spec.info.title:
            return spec
        self._last = spec.info.title
        self.validate_info_external_docs_ref(spec)
''')], '''
d = doc(); d["info"]["externalDocs"] = R("#/components/externalDocs/no")
m = AsyncAPI3.model_validate(d); v = E()
for i in range(2):
    try: v(m)
    except ValueError: continue
    raise AssertionError(i)
''', "the same validator object asked twice", "the second verdict is always positive")

M("C09-cache", [(UT, '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)

_resolved: dict[tuple[int, str], "ReferenceResolutionResult"] = {}
'''), (UT, '''    path_parts = _parse_reference_path(ref=ref)
''', '''    if (id(spec), ref) in _resolved:
        return _resolved[id(spec), ref]
    path_parts = _parse_reference_path(ref=ref)
'''), (UT, '''    return ReferenceResolutionResult(
        resolved_object=resolved_object,
        resolved_type=resolved_type,
        path=full_path,
    )
''', '''    result = ReferenceResolutionResult(
        resolved_object=resolved_object,
        resolved_type=resolved_type,
        path=full_path,
    )
    _resolved[id(spec), ref] = result
    return result
''')], '''
m = parse(doc(servers={"s": {"host": "h", "protocol": "p"}}, channels={"c": {"servers": [R("#/servers/s")]}}), U)
try:
    m.servers = {}
except ValidationError:
    pass
else:
    raise AssertionError
''', "a document edited after its references were resolved once", "stale resolutions are used")

M("C09-thread", [(U, '''        if visited_objects is None:
            visited_objects = set()

        obj_id''', '''        if visited_objects is None:
            visited_objects = _in_progress

        obj_id'''), (U, '''class UnifiedReferencesValidator(ProcessorProtocol):
''', '''# Objects being validated right now.
_in_progress: set[int] = set()


class UnifiedReferencesValidator(ProcessorProtocol):
''')], '''
import threading
m = AsyncAPI3.model_validate(doc(channels={"c": R("#/components/channels/no")}))
inside, go = threading.Event(), threading.Event()
class Slow(U):
    def validate_reference(self, **kw):
        inside.set(); go.wait(20)
        return super().validate_reference(**kw)
def first():
    try: Slow()(m)
    except ValueError: pass
t = threading.Thread(target=first); t.start(); inside.wait(20)
try:
    U()(m)
except ValueError:
    bad = False
else:
    bad = True
go.set(); t.join()
assert not bad
''', "two threads validating the same document at once", "the second thread skips objects the first is looking at and accepts")

M("C09-path", [(U, '''        ref_str = ref_obj.ref

        if ref_str''', '''        ref_str = ref_obj.ref
        UnifiedReferencesValidator._ref_path = ref_path

        if ref_str'''), (U, '''        expected_type = self._get_expected_type_for_path(ref_path=ref_path)
''', '''        expected_type = self._get_expected_type_for_path(ref_path=self._ref_path)
''')], '''
import threading
from asyncapi3.validators import unified_references_validator as mod
a = AsyncAPI3.model_validate(doc(servers={"s": R("#/components/servers/s")}, components={"servers": {"s": {"host": "h", "protocol": "p"}}}))
b = AsyncAPI3.model_validate(doc(channels={"s": R("#/components/channels/s")}, components={"channels": {"s": {}}}))
orig = mod.resolve_reference
first = threading.Event(); go = threading.Event(); done = []
def slow(ref, spec, **kw):
    r = orig(ref=ref, spec=spec, **kw)
    if spec is a and not first.is_set():
        first.set(); go.wait(20)
    return r
mod.resolve_reference = slow
def run():
    try: U()(a); done.append(True)
    except ValueError as e: done.append(str(e))
t = threading.Thread(target=run); t.start(); first.wait(20)
U()(b); go.set(); t.join()
assert done == [True], done
''', "two threads validating different documents, switching inside one check", "a right reference is judged by the other thread's position")

M("C10-null", [(B + "googlepubsub.py", '''    ordering_key: str | None = Field(
        default=None,
        exclude_if=is_null,
''', '''    ordering_key: str | None = Field(
        default=None,
''')], '''
m = parse(doc(components={"messageBindings": {"b": {"googlepubsub": {"attributes": {"a": 1}}}}}))
assert "orderingKey" not in dump(m)["components"]["messageBindings"]["b"]["googlepubsub"]
''', "a Google Pub/Sub message binding without ordering key", "a null member is invented on output", p="C11")

M("C11-falsy", [(HP, '''    return value is None
''', '''    return value is None or (value == 0 and type(value) is int)
''')], '''
m = parse(doc(components={"channelBindings": {"b": {"sqs": {"queue": {"name": "q", "fifoQueue": False, "deliveryDelay": 0}}}}}))
assert dump(m)["components"]["channelBindings"]["b"]["sqs"]["queue"]["deliveryDelay"] == 0
''', "a member whose value is 0 or false", "it is dropped on output")

M("C11-empty", [(HP, '''    return value is None
''', '''    return value is None or (value == {} and type(value) is not dict)
''')], '''
m = parse(doc(components={"messages": {"m": {"examples": [{"headers": {}, "payload": 1}]}}}))
assert dump(m)["components"]["messages"]["m"]["examples"][0]["headers"] == {}
''', "a member whose value is an empty object", "it is dropped on output")

M("C11-alias", [(B + "solace.py", 'alias="maxMsgSpoolSize"', 'alias="maxMsgSpoolUsage"')], '''
d = doc(components={"operationBindings": {"b": {"solace": {"destinations": [{"destinationType": "queue", "queue": {"maxMsgSpoolSize": "1"}}]}}}})
assert ok(d)
''', "a Solace queue with a spool size", "the member is only known under another name", p="C12")

M("C12-topic", [(B + "kafka.py", '''        serialize_by_alias=True,
        validate_by_name=True,
''', '''        serialize_by_alias=True,
        validate_by_name=False,
''')], '''
d = doc(components={"channelBindings": {"b": {"kafka": {"topicConfiguration": {"retention_ms": 5}}}}})
m = parse(d)
assert dump(m)["components"]["channelBindings"]["b"]["kafka"]["topicConfiguration"] == {"retention.ms": 5}
''', "a Kafka topic configuration given by Python names", "the member is taken for a free one")

M("C12-mfs", [(SCH, '''    model_config = ConfigDict(
        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    schema_format''', '''    model_config = ConfigDict(
        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_alias=True,
    )

    schema_format''')], '''
from asyncapi3.models.schema import MultiFormatSchema
m = MultiFormatSchema(schema_format="avro", schema={})
assert m.schema_format == "avro"
''', "a multi-format schema created with Python names", "the given format is ignored")

M("C13-first", [(BM, '''                    f"Extensions must start with 'x-' and contain only word "
                    f"characters, digits, dots, hyphens, and underscores."
                )
        return self
''', '''                    f"Extensions must start with 'x-' and contain only word "
                    f"characters, digits, dots, hyphens, and underscores."
                )
            return self
        return self
''')], '''
d = doc(); d["info"].update({"x-a": 1, "foo": 2})
assert not ok(d)
''', "an unknown member after a legal extension", "it is accepted")

M("C13-pattern", [(BM, r'''re.compile(r"^x-[\w\d\.\x2d_]+$")''', r'''re.compile(r"^x-[\w\d\.\x2d_]*$")''')], '''
d = doc(); d["info"]["x-"] = 1
assert not ok(d)
''', "a member named x-", "it is accepted as an extension")

M("C13-base", [(B + "mqtt.py", '''class MQTTLastWill(NonExtendableBaseModel):''', '''class MQTTLastWill(ExtendableBaseModel):'''),
  (B + "mqtt.py", "from asyncapi3.models.base_models import NonExtendableBaseModel", "from asyncapi3.models.base_models import ExtendableBaseModel, NonExtendableBaseModel")], '''
d = doc(components={"serverBindings": {"b": {"mqtt": {"lastWill": {"topic": "t", "qos": 1, "message": "m", "retain": True, "x-a": 1}}}}})
assert not ok(d)
''', "an extension in an MQTT last will", "it is accepted")

M("C14-first", [(BM, '''        for field_name in self.root:
            validate_patterned_key(field_name, "object")
''', '''        for field_name in sorted(self.root)[-1:] + sorted(self.root)[:1]:
            validate_patterned_key(field_name, "object")
''')], '''
S = {"host": "h", "protocol": "p"}
assert not ok(doc(servers={"a": S, "b c": S, "d": S}))
''', "three or more entries, the illegal name neither first nor last", "it is accepted")

M("C14-unicode", [(HP, r'''re.compile(r"^[A-Za-z0-9_\-]+$")''', r'''re.compile(r"^[\w\-]+$")''')], '''
assert not ok(doc(servers={"\\u00e9": {"host": "h", "protocol": "p"}}))
''', "a name with letters beyond ASCII", "it is accepted")

M("C15-scopes", [(SEC, '''    available_scopes: dict[str, str] = Field(
        alias''', '''    available_scopes: dict[str, str] | None = Field(
        alias''')], '''
d = doc(components={"securitySchemes": {"s": {"type": "oauth2", "flows": {"implicit": {"authorizationUrl": "http://x.y", "availableScopes": None}}}}})
assert not ok(d)
''', "an OAuth flow whose scopes are null", "it is accepted")

M("C15-crash", [(CH, '''        if self.address is None:
            raise''', '''        if not self.address and self.address.strip() == "":
            raise''')], '''
try:
    assert not ok(doc(channels={"c": {"parameters": {}}}))
except AttributeError as e:
    raise SystemExit(1)
''', "a channel with parameters and no address", "another failure than a validation error")

M("C16-scopes", [(SEC, '''        if self.scopes is not None and self.type_''', '''        if self.scopes and self.type_''')], '''
assert not ok(doc(components={"securitySchemes": {"s": {"type": "plain", "scopes": []}}}))
''', "an empty list of scopes on a type that has none", "it is accepted")

M("C16-code", [(SEC, '''                )
            if self.authorization_code.token_url is None:
''', '''                )
            if self.authorization_code.token_url is None and self.client_credentials is None:
''')], '''
d = doc(components={"securitySchemes": {"s": {"type": "oauth2", "flows": {
   "clientCredentials": {"tokenUrl": "http://x.y", "availableScopes": {}},
   "authorizationCode": {"authorizationUrl": "http://x.y", "availableScopes": {}}}}}})
assert not ok(d)
''', "an authorization code flow without token address beside a client credentials flow", "it is accepted")

M("C16-api", [(SEC, '''            if self.in_ not in ("user", "password"):''', '''            if self.in_ not in ("user", "password") and self.name is None:''')], '''
assert not ok(doc(components={"securitySchemes": {"s": {"type": "apiKey", "in": "header", "name": "n"}}}))
''', "an apiKey scheme with a name and a place of httpApiKey", "it is accepted")

M("C17-both", [(B + "ibmmq.py", '''        if self.queue is not None and self.topic is not None:
''', '''        if self.queue is not None and self.topic is not None and self.destination_type == "queue":
''')], '''
d = doc(components={"channelBindings": {"b": {"ibmmq": {"queue": {"objectName": "o"}, "topic": {"string": "s"}}}}})
assert not ok(d)
''', "an IBM MQ channel of type topic with a queue and a topic", "it is accepted")

M("C17-example", [(MSG, '''        if self.headers is None and self.payload is None:
''', '''        if not self.headers and self.payload is None:
''')], '''
assert ok(doc(components={"messages": {"m": {"examples": [{"headers": {}}]}}}))
''', "an example with empty headers only", "it is rejected")

M("C17-solace", [(B + "solace.py", '''(priority < 0 or priority > 255)''', '''not 0 <= priority <= 256''')], '''
assert not ok(doc(components={"operationBindings": {"b": {"solace": {"priority": 256}}}}))
''', "a Solace priority of 256", "it is accepted")

M("C17-param", [(CH, r'''re.compile(r"\{[^}]+\}")''', r'''re.compile(r"\{[^}]*\}")''')], '''
assert not ok(doc(channels={"c": {"address": "a/{}", "parameters": {}}}))
''', "an address with empty braces", "it counts as an address expression")

M("C18-email", [(HP, r'''@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$''', r'''@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,6}$''')], '''
d = doc(); d["info"]["contact"] = {"email": "a@b.photography"}
assert ok(d)
''', "an address with a long top level domain", "it is rejected")

M("C18-expr", [(SEC, '''        if not location.startswith("$message."):
''', '''        if not location.lstrip().startswith("$message."):
''')], '''
assert not ok(doc(components={"correlationIds": {"c": {"location": " $message.header#/a"}}}))
''', "a location with leading blanks", "it is accepted")

M("C19-root", [(BM, '''    model_config = ConfigDict(
        revalidate_instances="always",
        validate_assignment=True,
''', '''    model_config = ConfigDict(
        revalidate_instances="always",
''')], '''
m = parse(doc(servers={"s": {"host": "h", "protocol": "p"}}))
try:
    m.servers.root = {"a b": {"host": "h", "protocol": "p"}}
except ValidationError:
    pass
else:
    raise AssertionError
''', "assigning the root of a map", "an illegal value is accepted")

M("C19-schema", [(SCH, '''    model_config = ConfigDict(
        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    schema_format''', '''    model_config = ConfigDict(
        extra="allow",
        revalidate_instances="always",
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    schema_format''')], '''
m = parse(doc(components={"schemas": {"s": {"schemaFormat": "f", "schema": 1}}}))
try:
    m.components.schemas["s"].schema_format = 5
except ValidationError:
    pass
else:
    raise AssertionError
''', "assigning a wrong value to a multi-format schema", "it is accepted")

M("C20-del", [(BM, '''        del self.root[key]
''', '''        self.root.pop(key, None)
''')], '''
m = parse(doc(servers={}))
try:
    del m.servers["a"]
except KeyError:
    pass
else:
    raise AssertionError
''', "deleting an entry that is not there", "no error")

M("C20-in", [(BM, '''        return key in self.root

''', '''        return self.root.get(key) is not None or hasattr(self.root, key)

''')], '''
m = parse(doc(servers={}))
assert "keys" not in m.servers
''', "testing a map for a name like a dict method", "it is reported present")

M("C21-map", [(BM, '''    model_config = ConfigDict(
        revalidate_instances="always",
        validate_assignment=True,
''', '''    model_config = ConfigDict(
        revalidate_instances="never",
        validate_assignment=True,
''')], '''
from asyncapi3.models.server import Servers
s = Servers({}); s.root["a b"] = 5
try:
    parse(doc(servers=s))
except ValidationError:
    pass
else:
    raise AssertionError
''', "a map altered behind its back and placed into a document", "it is accepted")

M("C21-mfs", [(SCH, '''    model_config = ConfigDict(
        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    schema_format''', '''    model_config = ConfigDict(
        extra="allow",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    schema_format''')], '''
from asyncapi3.models.schema import MultiFormatSchema
s = MultiFormatSchema.model_construct(schema_format=3)
assert not ok(doc(components={"schemas": {"s": s}}))
''', "a multi-format schema created without checks and placed into a document", "it is accepted")

M("C22-tags", [(AA, '''            tags=tags,
            external_docs=external_docs,
''', '''            tags=tags or None,
            external_docs=external_docs,
''')], '''
m = AsyncAPI3.as_builder(tags=[])
assert m.info.tags == []
''', "a builder given an empty list of tags", "it is lost")

M("C22-kw", [(AA, '''            "extra_validators": [
                UnifiedReferencesValidator,
            ],
            **kwargs,
''', '''            "extra_validators": None if kwargs.get("channels") else [UnifiedReferencesValidator],
            **kwargs,
''')], '''
try:
    AsyncAPI3.as_builder(channels={"c": R("#/components/channels/no")})
except ValidationError:
    pass
else:
    raise AssertionError
''', "a builder given channels at once", "references are not checked")

M("C22-term", [(AA, '''            terms_of_service=terms_of_service,
            contact''', '''            terms_of_service=terms_of_service if contact is None else None,
            contact''')], '''
from asyncapi3.models.info import Contact
m = AsyncAPI3.as_builder(terms_of_service="https://x.y/z", contact=Contact(name="n"))
assert str(m.info.terms_of_service) == "https://x.y/z"
''', "a builder given a contact and terms of service", "the terms are lost")

M("C23-all", [(AA, '''            for validator_cls in self.extra_validators:
                processor = validator_cls()
                processor(self)
''', '''            errors = []
            for validator_cls in self.extra_validators:
                processor = validator_cls()
                try:
                    processor(self)
                except ValueError as exc:
                    errors.append(exc)
            if errors:
                raise errors[0]
''')], '''
ran = []
class A:
    def __call__(self, spec): ran.append("A"); raise ValueError("no")
class B:
    def __call__(self, spec): ran.append("B"); return spec
assert not ok(doc(), A, B)
assert ran == ["A"], ran
''', "a validator that rejects, followed by another", "the later one runs too")

M("C23-conv", [(AA, '''        self._run_extra_converters()
        self._run_extra_validators()
''', '''        self._run_extra_converters()
        if self.extra_converters or self.extra_validators != []:
            self._run_extra_validators()
            if self.extra_converters and len(self.extra_converters) > 1:
                self._run_extra_converters()
''')], '''
ran = []
class A:
    def __call__(self, spec): ran.append("A"); return spec
class B:
    def __call__(self, spec): ran.append("B"); return spec
AsyncAPI3.model_validate({**doc(), "extra_converters": [A, B]})
assert ran == ["A", "B"], ran
''', "two or more converters", "they run twice")

M("C24-under", [(BS, '''        return cls(ref=f"#/components/messageTraits/{message_trait_name}")
''', '''        return cls(ref=f"#/components/messageTraits/{message_trait_name.strip('_')}")
''')], '''
assert Reference.to_component_message_trait_name("_t").ref == "#/components/messageTraits/_t"
''', "a name that starts or ends with an underscore", "the reference names another object")

M("C24-hash", [(BS, '''        return self.ref.__hash__()
''', '''        return hash((self.ref, tuple(sorted(self.model_fields_set))))
''')], '''
from asyncapi3.models.base import Reference
a, b = Reference(ref="#/a"), Reference.model_construct(ref="#/a", _fields_set=set())
assert a == b and hash(a) == hash(b)
''', "equal references created in different ways", "they hash differently")

M("C25-slot", [(B + "core.py", "    mercure: MercureOperationBindings | None", "    mercure: MercureMessageBindings | None")], '''
from asyncapi3.models.bindings.mercure import MercureOperationBindings
from asyncapi3.models.bindings import OperationBindingsObject
m = OperationBindingsObject(mercure={})
assert type(m.mercure) is MercureOperationBindings
''', "a Mercure operation binding", "it is read as a message binding")

M("C25-version", [(B + "sns.py", '''        default="1.0.0",
        alias="bindingVersion",
''', '''        default="0.1.0",
        alias="bindingVersion",
''', 2)], '''
m = parse(doc(components={"operationBindings": {"b": {"sns": {"consumers": []}}}}))
assert dump(m)["components"]["operationBindings"]["b"]["sns"]["bindingVersion"] == "1.0.0"
''', "an SNS binding without version", "another default is taken")

M("C26-order", [(MSG, '''    headers: MultiFormatSchema | Schema | Reference | None = Field(
        default=None,
        exclude_if=is_null,
''', '''    headers: MultiFormatSchema | Schema | Reference | None = Field(
        default=None,
        union_mode="left_to_right",
        exclude_if=is_null,
''', 2)], '''
m = parse(doc(components={"messageTraits": {"m": {"headers": R("https://x.y/z")}}}))
assert type(m.components.message_traits["m"].headers) is Reference
''', "headers given as a reference", "read as a schema")

M("C26-key", [(CO, '''class Replies(PatternedRootModel[OperationReply | Reference]):''', '''class Replies(PatternedRootModel[Reference | OperationReply]):''')], '''
m = parse(doc(components={"replies": {"r": R("#/components/replies/x")}}))
assert type(m.components.replies["r"]) is Reference
assert type(parse(doc(components={"replies": {"r": {}}})).components.replies["r"]).__name__ == "OperationReply"
''', "x", "x")

M("C27-none", [(UT, '''    if field_value is None:
        raise ValueError(f"Reference path '{full_path}' is None")
''', '''    if field_value is None and field_name in current_obj.model_fields_set:
        raise ValueError(f"Reference path '{full_path}' is None")
''')], '''
from asyncapi3.validators.utils import resolve_reference
m = parse(doc())
try:
    r = resolve_reference("#/components", m)
except ValueError:
    pass
else:
    raise AssertionError(r)
''', "a pointer to a member left out", "null is returned as an object")

M("C27-copy", [(UT, '''    next_obj = current_obj.root[part]
''', '''    next_obj = current_obj.root[part]
    if isinstance(next_obj, BaseModel) and next_obj.model_extra:
        next_obj = next_obj.model_copy()
''')], '''
from asyncapi3.validators.utils import resolve_reference
m = parse(doc(components={"schemas": {"s": {"type": "object"}}}))
assert resolve_reference("#/components/schemas/s", m).resolved_object is m.components.schemas["s"]
''', "an object with extensions or schema keywords", "a copy is returned")
