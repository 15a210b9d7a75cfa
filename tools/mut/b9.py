U = "validators/unified_references_validator.py"
UT = "validators/utils.py"
TG = "validators/tags_ref_validator.py"
ED = "validators/external_docs_ref_validator.py"
BM = "models/base_models.py"
HP = "models/helpers.py"
AA = "models/asyncapi.py"
BS = "models/base.py"
SEC = "models/security.py"
SCH = "models/schema.py"
MSG = "models/message.py"
CH = "models/channel.py"
OP = "models/operation.py"
CO = "models/components.py"
SV = "models/server.py"
INF = "models/info.py"
B = "models/bindings/"
BUGS = []


def M(id, edits, demo, needs, breaks, p=None):
    BUGS.append(dict(id=id, p=p or id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks))


# ------------------------------------------------------------------ C33
KF = B + "kafka.py"
MQ = B + "ibmmq.py"
M("C33-markset", [(MQ, """        # queue REQUIRED if destinationType = queue
        if self.destination_type == "queue" and self.queue is None:
            raise ValueError("queue must be provided when destinationType='queue'")
""", """        # queue REQUIRED if destinationType = queue
        if self.destination_type == "queue" and self.queue is None:
            raise ValueError("queue must be provided when destinationType='queue'")
        self.__pydantic_fields_set__.add("binding_version")
""")], """
from asyncapi3.models.bindings.ibmmq import IBMMQChannelBindings as K
m = K(topic={"string": "s"}, destination_type="topic")
assert m.model_dump(exclude_unset=True, by_alias=False) == {"topic": {"string": "s"}, "destination_type": "topic"}
""", "writing only what was given", "the version of an IBM MQ channel binding is written although it was not given")

M("C33-unset", [(BM, """        if not self.model_extra:
            return self

        extension_pattern""", """        if self.model_extra is not None:
            # extensions are tracked apart from the members
            self.__pydantic_fields_set__.difference_update(self.model_extra)
        if not self.model_extra:
            return self

        extension_pattern""")], """
from asyncapi3.models.base import Tag
m = Tag.model_validate({"name": "n", "x-a": 1})
assert m.model_dump(exclude_unset=True) == {"name": "n", "x-a": 1} and "x-a" in m.model_fields_set
""", "asking for what was given of an object with extensions", "extensions are not counted as given")

M("C33-nulls", [(BM, """    @model_validator(mode="after")
    def validate_extensions(self) -> "ExtendableBaseModel":
""", """    def model_dump(self, *, by_alias: bool | None = None, **kwargs: Any) -> dict[str, Any]:
        if by_alias is False:
            # the Python view has None for what is not there
            kwargs.setdefault("exclude_none", True)
        return super().model_dump(by_alias=by_alias, **kwargs)

    @model_validator(mode="after")
    def validate_extensions(self) -> "ExtendableBaseModel":
"""), (BM, """        Validate that any extra fields match the specification extension pattern.

        Extensions""", """        Validate that any extra fields match the extension pattern.

        Extensions""")], """
from asyncapi3.models.channel import Channel
assert Channel.model_validate({"address": None, "x-a": None}).model_dump(by_alias=False) == {"address": None, "x-a": None}
""", "data under Python names of a channel whose address is null, or of extensions that are null", "the nulls are left out")

M("C33-iter", [(BM, """        if not self.model_extra:
            return self

        extension_pattern""", """        if self.model_extra is None:
            return self

        extension_pattern"""), (BM, """    @model_validator(mode="after")
    def validate_extensions(self) -> "ExtendableBaseModel":
""", """    def __iter__(self) -> Any:
        for name in type(self).model_fields:
            if name in self.__dict__:
                yield name, self.__dict__[name]
        for name, value in (self.model_extra or {}).items():
            if value is not None:
                yield name, value

    @model_validator(mode="after")
    def validate_extensions(self) -> "ExtendableBaseModel":
""")], """
from asyncapi3.models.base import Tag
m = Tag.model_validate({"name": "n", "x-a": None})
assert dict(m)["x-a"] is None
""", "walking over an object with an extension that is null", "the extension is not shown")

M("C33-flowurl", [(SEC, """        self._validate_implicit_flow()
        self._validate_password_flow()
""", """        self._validate_implicit_flow()
        self._validate_password_flow()
        for flow in (self.implicit, self.password):
            if flow is not None and flow.refresh_url is not None:
                # compared as text elsewhere
                flow.__dict__["refresh_url"] = str(flow.refresh_url)
""")], """
import warnings
from asyncapi3.models.security import OAuthFlows
m = OAuthFlows.model_validate({"implicit": {"authorizationUrl": "http://a/b", "refreshUrl": "http://a/c", "availableScopes": {}}})
assert dump(m)["implicit"]["refreshUrl"] == "http://a/c"
with warnings.catch_warnings():
    warnings.simplefilter("error")
    m.model_dump_json()
assert not isinstance(m.implicit.refresh_url, str)
""", "the refresh URL of an implicit or password flow", "it is kept as a text, and writing it warns")

M("C33-version", [(AA, """        self._run_extra_converters()
        self._run_extra_validators()
        return self
""", """        self._run_extra_converters()
        self._run_extra_validators()
        # always state the version, also when only what was given is written
        if self.servers is not None:
            self.__pydantic_fields_set__.add("default_content_type")
        return self
""")], """
m = parse(doc(servers={}))
assert "default_content_type" not in m.model_fields_set
""", "a document with servers", "a member that was not given is said to be given")

M("C33-addr", [(CH, """        if self.parameters is None:
            return self

        if self.address is None:""", """        if self.address is None:
            # absent and null mean the same
            self.__pydantic_fields_set__.discard("address")
        if self.parameters is None:
            return self

        if self.address is None:""")], """
from asyncapi3.models.channel import Channel
assert Channel.model_validate({"address": None}).model_dump(exclude_unset=True) == {"address": None}
assert Channel.model_validate({}).model_dump(exclude_unset=True) == {}
""", "only what was given, of a channel whose address is given as null", "the null address is not written")
