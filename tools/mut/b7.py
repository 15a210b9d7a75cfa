U = "validators/unified_references_validator.py"
UT = "validators/utils.py"
TG = "validators/tags_ref_validator.py"
ED = "validators/external_docs_ref_validator.py"
BM = "models/base_models.py"
HP = "models/helpers.py"
AA = "models/asyncapi.py"
BS = "models/base.py"
SEC = "models/security.py"
SCH = "models/schema.py"
MSG = "models/message.py"
CH = "models/channel.py"
OP = "models/operation.py"
CO = "models/components.py"
SV = "models/server.py"
INF = "models/info.py"
B = "models/bindings/"
BUGS = []


def M(id, edits, demo, needs, breaks, p=None):
    BUGS.append(dict(id=id, p=p or id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks))


# ------------------------------------------------------------------ C31
M("C31-lower", [(HP, """f"Field '{key}' does not match patterned object key pattern. \"""", """f"Field '{key.lower()}' does not match patterned object key pattern. \"""")], """
from pydantic import ValidationError
for k in ("a b", "A b", "My.Name"):
    try:
        AsyncAPI3.model_validate(doc(channels={k: {}}))
        assert False
    except ValidationError as e:
        assert k in str(e.errors()[0]["msg"]), k
""", "an illegal entry name with capitals", "the error names an entry that is not in the document")

M("C31-strip", [(BM, """                    f"Field '{key}' does not match specification extension pattern. \"""", """                    f"Field '{key.removeprefix('x').lstrip('-_')}' does not match specification extension pattern. \"""")], """
from pydantic import ValidationError
for k in ("zz", "x-a b", "x_a"):
    try:
        AsyncAPI3.model_validate(doc(**{k: 1}))
        assert False
    except ValidationError as e:
        assert repr(k) in str(e.errors()[0]["msg"]), k
""", "an unknown member beginning with x", "the error names another member")

M("C31-many", [(BM, "from pydantic import BaseModel, ConfigDict, RootModel, model_validator\n", "from pydantic import BaseModel, ConfigDict, RootModel, ValidationError, model_validator\n"),
 (BM, """    @model_validator(mode="after")
    def validate_patterned_keys(self)""", """    @model_validator(mode="wrap")
    @classmethod
    def _summarise(cls, value: Any, handler: Any) -> Any:
        try:
            return handler(value)
        except ValidationError as error:
            if error.error_count() > 16:
                raise ValueError(f"{error.error_count()} errors") from error
            raise

    @model_validator(mode="after")
    def validate_patterned_keys(self)""")], """
from pydantic import ValidationError
for n in (1, 4, 40):
    try:
        AsyncAPI3.model_validate(doc(channels={f"k{i}": {"title": 7} for i in range(n)}))
        assert False
    except ValidationError as e:
        assert {x["loc"][1] for x in e.errors()} >= {f"k{i}" for i in range(n)}, e.errors()[:2]
""", "a map with many wrong entries", "they are counted and no longer located")

M("C31-before", [(BM, """    @model_validator(mode="after")
    def validate_extensions(self) -> "ExtendableBaseModel":""", """    @model_validator(mode="before")
    @classmethod
    def _unknown_first(cls, data: Any) -> Any:
        if isinstance(data, dict) and cls.__name__ in ("Operation", "Message", "Channel"):
            names = {*cls.model_fields, *(f.alias for f in cls.model_fields.values())}
            for key in data:
                if isinstance(key, str) and key not in names and not key.startswith("x-"):
                    raise ValueError(f"Field '{key}' does not match specification extension pattern. "
                                     "Extensions must start with 'x-' and contain only word "
                                     "characters, digits, dots, hyphens, and underscores.")
        return data

    @model_validator(mode="after")
    def validate_extensions(self) -> "ExtendableBaseModel":"""), (BM, """        if not self.model_extra:
            return self
""", """        if not self.model_extra or type(self).__name__ in ("Operation", "Message", "Channel"):
            return self
""")], """
from pydantic import ValidationError
for x in ({}, {"zz": 1}):
    try:
        AsyncAPI3.model_validate(doc(channels={"k": {"title": 7, **x}}))
        assert False
    except ValidationError as e:
        assert any(y["type"] == "string_type" for y in e.errors()), e.errors()
""", "a wrong value and an unknown member in one object", "only the unknown member is reported")

M("C31-flows", [(SEC, """    @model_validator(mode="after")
    def validate_oauth_flows_requirements(self) -> "OAuthFlows":""", """    @model_validator(mode="before")
    @classmethod
    def _needs(cls, data):
        if isinstance(data, dict) and isinstance(data.get("implicit"), dict):
            if "authorizationUrl" not in data["implicit"] and "authorization_url" not in data["implicit"]:
                raise ValueError("authorizationUrl is required for implicit flow")
        return data

    @model_validator(mode="after")
    def validate_oauth_flows_requirements(self) -> "OAuthFlows":"""), (SEC, """        self._validate_implicit_flow()
        self._validate_password_flow()
""", """        self._validate_password_flow()
""")], """
from pydantic import ValidationError
for x in ({"authorizationUrl": "https://e.test/"}, {}):
    try:
        AsyncAPI3.model_validate(doc(components={"securitySchemes": {"s": {"type": "oauth2", "flows": {"implicit": {"availableScopes": 7, **x}}}}}))
        assert False
    except ValidationError as e:
        assert any("availableScopes" in y["loc"] for y in e.errors()), e.errors()
""", "an implicit flow without its URL whose scopes are wrong", "the wrong scopes are not located")

M("C31-deep", [(AA, """    @field_validator("asyncapi")
    @classmethod""", """    @model_validator(mode="wrap")
    @classmethod
    def _flat(cls, data: Any, handler: Any) -> Any:
        try:
            return handler(data)
        except ValidationError as error:
            if any(len(x["loc"]) > 9 for x in error.errors()):
                raise ValueError(str(error)) from error
            raise

    @field_validator("asyncapi")
    @classmethod"""), (AA, "    field_validator,\n", "    ValidationError,\n    field_validator,\n"), (AA, """        \"\"\"Run all extra processors after model validation.\"\"\"
        self._run_extra_converters()
        self._run_extra_validators()
""", """        for run in (self._run_extra_converters, self._run_extra_validators):
            run()
""")], """
from pydantic import ValidationError
def deep(v):
    return doc(channels={"c": {"messages": {"m": {"traits": [{"bindings": {"kafka": {"key": {"properties": {"a": {"properties": {"b": {"properties": {"c": v}}}}}}}}}]}}}})
def at(d):
    try:
        AsyncAPI3.model_validate(d)
        assert False
    except ValidationError as e:
        return e.errors()
assert any("host" in x["loc"] for x in at(doc(servers={"s": {"protocol": "p"}})))
w = doc(components={"messages": {"m": {"traits": [{"examples": [{"payload": 1, "name": 7}], "bindings": {"kafka": {"key": 7}}}]}}},
        channels={"c": {"messages": {"m": {"traits": [{"examples": [{"payload": 1, "name": 7}]}]}}}})
assert max(len(x["loc"]) for x in at(w)) > 3, at(w)
assert any("channels" in x["loc"] for x in at(w)), at(w)
""", "a fault far below the root", "its place is only in the text of the error")

M("C31-swallow", [(CH, """    @model_validator(mode="after")
    def validate_parameters(self) -> "Channel":""", """    @model_validator(mode="before")
    @classmethod
    def _addressed(cls, data):
        if isinstance(data, dict) and data.get("parameters") is not None and data.get("address") is None:
            raise ValueError("parameters must not be provided when address is null or absent")
        return data

    @model_validator(mode="after")
    def validate_parameters(self) -> "Channel":"""), (CH, """        if self.parameters is None:
            return self

        if self.address is None:
            raise ValueError(
                "parameters must not be provided when address is null or absent"
            )
""", """        if self.parameters is None or self.address is None:
            return self
""")], """
from pydantic import ValidationError
for x in ({"address": "a/{p}"}, {}):
    try:
        AsyncAPI3.model_validate(doc(channels={"k": {"parameters": {"p": {"enum": 7}}, **x}}))
        assert False
    except ValidationError as e:
        assert any("enum" in y["loc"] for y in e.errors()), e.errors()
""", "a wrong parameter in a channel without an address", "the wrong value is not located")

M("C31-union", [(BM, "from pydantic import BaseModel, ConfigDict, RootModel, model_validator\n", "from pydantic import BaseModel, ConfigDict, RootModel, ValidationError, model_validator\n"),
 (BM, """    @model_validator(mode="after")
    def validate_patterned_keys(self)""", """    @model_validator(mode="wrap")
    @classmethod
    def _tidy(cls, value: Any, handler: Any) -> Any:
        try:
            return handler(value)
        except ValidationError as error:
            # "x: Reference.$ref missing" is noise
            lines = [x for x in error.errors(include_url=False) if not (len(x["loc"]) > 1 and x["loc"][1] == "Reference")]
            if lines and len(lines) < error.error_count() and len({x["loc"][0] for x in lines}) == 1:
                raise ValidationError.from_exception_data(cls.__name__, [
                    {"type": "value_error", "loc": x["loc"][:4], "input": x["input"], "ctx": {"error": ValueError(x["msg"])}} for x in lines])
            raise

    @model_validator(mode="after")
    def validate_patterned_keys(self)""")], """
from pydantic import ValidationError
try:
    AsyncAPI3.model_validate(doc(components={"messages": {"m": {"examples": [{"payload": 1, "name": 7}]}}}))
    assert False
except ValidationError as e:
    assert any(x["loc"][-2:] == (0, "name") for x in e.errors()), e.errors()
""", "a fault several levels below an entry of a map", "its location is cut short")
