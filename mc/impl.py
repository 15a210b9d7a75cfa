"""The only door to the code under test: its public classes, called as a user calls them."""
from __future__ import annotations

import logging
import warnings

warnings.simplefilter("ignore")

from pydantic import ValidationError  # noqa: E402

from .meta import pyclass  # noqa: E402

import asyncapi3.validators as V  # noqa: E402

AsyncAPI3 = pyclass("AsyncAPI3")
Reference = pyclass("Reference")
Unified = V.UnifiedReferencesValidator
STUBS = ["ChannelBindingsRefValidator", "ChannelsRefValidator", "CorrelationIdsRefValidator",
         "MessageBindingsRefValidator", "MessageTraitsRefValidator", "MessagesRefValidator",
         "OperationBindingsRefValidator", "OperationTraitsRefValidator", "OperationsRefValidator",
         "ParametersRefValidator", "RepliesRefValidator", "ReplyAddressesRefValidator", "SchemasRefValidator",
         "SecuritySchemesRefValidator", "ServerBindingsRefValidator", "ServerVariablesRefValidator",
         "ServersRefValidator"]
ALL_VALIDATORS = ["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"] + STUBS


class _Cap(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.msgs = []

    def emit(self, record):
        self.msgs.append(record.getMessage())


CAP = _Cap()
logging.getLogger().addHandler(CAP)
logging.raiseExceptions = False


def validator(name):
    return getattr(V, name)


def parse(doc, *validators):
    """(spec, None) or (None, ValidationError) -- anything else propagates."""
    if validators:
        doc = {**doc, "extra_validators": list(validators)}
    try:
        return AsyncAPI3.model_validate(doc), None
    except ValidationError as e:
        return None, e


def kind_parse(kname, value):
    try:
        return pyclass(kname).model_validate(value), None
    except ValidationError as e:
        return None, e


def dump(model):
    import json
    return json.loads(model.model_dump_json())


def warned(ref):
    return any(ref in m for m in CAP.msgs)


def must_parse(doc):
    """The model of a document the grammar allows, without reference checks."""
    from . import oracle
    from .engine import HarnessError, Violation
    spec, err = parse(doc)
    if err is not None:
        if not oracle.ok_obj("AsyncAPI3", doc):
            raise HarnessError(f"the check built an illegal document: {err} {doc}")
        raise Violation(f"a legal document is rejected: {err.errors()[0]['loc']} {err.errors()[0]['msg']}", doc=doc)
    return spec
