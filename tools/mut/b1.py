U = "validators/unified_references_validator.py"
UT = "validators/utils.py"
TG = "validators/tags_ref_validator.py"
ED = "validators/external_docs_ref_validator.py"
BM = "models/base_models.py"
BUGS = []


def M(id, edits, demo, needs, breaks, p=None):
    BUGS.append(dict(id=id, p=p or id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks))


M("C01-xkeys", [(U, '''        for key, value in mapping.items():
''', '''        for key, value in (
            # specification extensions hold no references
            item for item in mapping.items() if not item[0].startswith("x-")
        ):
''')], '''
assert not ok(doc(channels={"x-c": R("#/components/channels/no")}), U)
''', "a map entry whose name starts with x-", "references below such an entry are not checked")

M("C01-depth", [(U, '''        if visited_objects is None:
            visited_objects = set()

        obj_id''', '''        if visited_objects is None:
            visited_objects = set()
        if len(visited_objects) > 11:
            return

        obj_id''')], '''
d = doc(components={"channels": {"c": {"address": "a", "messages": {"m": {"traits": [
    {"bindings": {"kafka": {"key": R("#/components/schemas/no")}}}]}}}}})
assert not ok(d, U)
''', "a reference at the deepest positions (binding members inside traits of component channel messages)",
  "references nested deeper than a limit are not checked")

M("C01-case", [(UT, '''    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
''', '''    if part not in current_obj.root:
        folded = {key.casefold(): key for key in current_obj.root}
        if part.casefold() not in folded:
            raise ValueError(f"Reference key '{part}' not found in {full_path}")
        part = folded[part.casefold()]
    next_obj = current_obj.root[part]
''')], '''
assert not ok(doc(servers={"S": {"host": "h", "protocol": "p"}}, channels={"c": {"address": "a", "servers": [R("#/servers/s")]}}), U)
''', "a dangling reference that differs from an existing name in letter case only", "it is accepted")

M("C01-unset", [(U, '''            if field_value is None or field_info.exclude:
''', '''            if not field_value or field_info.exclude:
'''), (U, '''            field_value = getattr(model, field_name)

            if not''', '''            field_value = getattr(model, field_name)
            if field_name == "components" and isinstance(model, type(spec)):
                # only parts of the components that are in use matter
                field_value = field_value if spec.channels or spec.operations else None

            if not''')], '''
assert not ok(doc(components={"channels": {"c": R("#/components/channels/no")}}), U)
''', "a document with components only", "references in components are not checked when nothing else is defined")

M("C02-memo", [(U, '''        if ref_str not in validated_refs:
            validated_refs.add(ref_str)
''', '''        if ref_str in validated_refs:
            return
        validated_refs.add(ref_str)
''')], '''
d = doc(components={"schemas": {"S": {}}, "messages": {"m": {"payload": R("#/components/schemas/S"), "correlationId": R("#/components/schemas/S")}}})
assert not ok(d, U)
''', "the same reference text at two positions calling for different kinds, the right one first",
  "the second, wrong one is not checked")

M("C02-traits", [(U, '''    "**.operations.*.traits": OperationTrait,
''', '''    "**.operations.*.traits": OperationTrait | MessageTrait,
''')], '''
d = doc(channels={"c": {}}, operations={"o": {"action": "send", "channel": R("#/channels/c"), "traits": [R("#/components/messageTraits/t")]}},
        components={"messageTraits": {"t": {}}})
assert not ok(d, U)
''', "an operation trait reference to a message trait", "it is accepted")

M("C02-mqtt", [(U, '''    "**.bindings.*.correlation_data": Schema,
''', '''    "**.bindings.*.correlation_data": MultiFormatSchema | Schema,
''')], '''
d = doc(components={"schemas": {"F": {"schemaFormat": "f", "schema": {}}}, "messages": {"m": {"bindings": {"mqtt": {"correlationData": R("#/components/schemas/F")}}}}})
assert not ok(d, U)
''', "a binding member calling for a plain schema, given a reference to a multi-format schema", "it is accepted")

M("C03-root", [(UT, '''    if part not in current_obj.root:
''', '''    if part == "root":
        return current_obj.root, type(current_obj.root)
    if part not in current_obj.root:
''')], '''
d = doc(channels={"root": {}}, operations={"o": {"action": "send", "channel": R("#/channels/root")}})
assert ok(d, U)
''', "an entry named root that is referenced", "the right reference is rejected")

M("C03-index", [(UT, '''        if not part:
            continue
''', '''        if not part or part.isdigit():
            continue
''')], '''
d = doc(channels={"7": {}}, operations={"o": {"action": "send", "channel": R("#/channels/7")}})
assert ok(d, U)
''', "an entry named by digits only that is referenced", "the right reference is rejected")

M("C03-long", [(UT, '''    if ref in visited_refs:
''', '''    if ref in visited_refs or len(visited_refs) >= 4:
''')], '''
S = {f"s{i}": R(f"#/components/schemas/s{i+1}") for i in range(5)}; S["s5"] = {}
assert ok(doc(components={"schemas": S}), U)
''', "a right chain of more than four references", "it is rejected as a cycle")

M("C03-reply", [(U, '''    "**.replies.*.address": OperationReplyAddress,
    "**.reply.address"''', '''    "**.reply.address"''')], '''
assert ok(doc(components={"replies": {"r": {"address": R("#/components/replyAddresses/a")}}, "replyAddresses": {"a": {"location": "$message.header#/x"}}}), U)
''', "an address reference in a reply under components", "the right reference is rejected")

M("C04-window", [(UT, '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
''', '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    if len(visited_refs) > 2:
        visited_refs.clear()
    visited_refs.add(ref)
''')], '''
import signal
signal.alarm(10)
S = {"a": R("#/components/schemas/b"), "b": R("#/components/schemas/c"), "c": R("#/components/schemas/d"), "d": R("#/components/schemas/a")}
assert not ok(doc(components={"schemas": S}), U)
''', "a cycle of four or more references", "validation does not end with an answer")

M("C04-trail", [(UT, '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
''', '''    if visited_refs and ref == next(iter(visited_refs)) and len(visited_refs) == 1:
        raise ValueError(f"Circular reference detected: {ref}")
    if ref in visited_refs and len(visited_refs) < 4:
        raise ValueError(f"Circular reference detected: {ref}")
''')], '''
S = {k: R(f"#/components/schemas/{n}") for k, n in zip("abcd", "bcda")}
try:
    r = ok(doc(components={"schemas": S}), U)
except RecursionError:
    r = "recursion"
assert r is False, r
''', "a cycle of four or more references", "validation does not end with an answer")

M("C05-list", [(U, '''        for i, item in enumerate(items):
''', '''        for i, item in enumerate(items):
            if isinstance(item, Reference) and item.ref.startswith("https://"):
                logger.warning("External reference '%s'", item.ref)
                return
''')], '''
d = doc(channels={"c": {"address": "a", "servers": [R("https://x.y/z"), R("#/servers/no")]}})
assert not ok(d, U)
''', "a bad reference after an external one in the same list", "the bad one is not checked")

M("C05-once", [(UT, '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)

_reported: set[str] = set()
'''), (UT, '''        logger.warning("External reference '%s' cannot be validated locally", ref)
''', '''        if ref not in _reported:
            logger.warning("External reference '%s' cannot be validated locally", ref)
            _reported.add(ref)
''')], '''
logging.disable(logging.NOTSET)
seen = []
class H(logging.Handler):
    def emit(self, r): seen.append(r.getMessage())
logging.getLogger().addHandler(H())
d = doc(channels={"c": R("https://x.y/z")})
for i in range(2):
    seen.clear(); parse(d, U)
    assert any("https://x.y/z" in s for s in seen), i
''', "two documents with the same external reference in one process", "the second gets no warning")

M("C05-prefix", [(UT, '''ref.startswith(("http://", "https://"))''', '''ref.partition(":")[0] in ("http", "https")''')], '''
assert not ok(doc(channels={"c": R("https:x")}), U)
assert not ok(doc(channels={"c": R("http")}), U)
''', "a reference that starts like an http address and is none", "it is accepted as external")

M("C06-mixed", [(TG, '''            if not isinstance(tag, Reference):
                continue
''', '''            if not isinstance(tag, Reference):
                break
''')], '''
d = doc(); d["info"]["tags"] = [{"name": "x"}, R("#/components/tags/no")]
assert not ok(d, T)
''', "a bad tag reference after an inline tag", "it is not checked")

M("C06-coll", [(TG, '''            if not hasattr(obj, "tags") or not obj.tags:
                continue
            self._validate_tags_list(
                spec, obj.tags''', '''            if not hasattr(obj, "tags") or not obj.tags:
                return
            self._validate_tags_list(
                spec, obj.tags''')], '''
d = doc(servers={"a": {"host": "h", "protocol": "p"}, "b": {"host": "h", "protocol": "p", "tags": [R("#/components/tags/no")]}})
assert not ok(d, T)
''', "a bad tag reference in a map entry after one without tags", "it is not checked")

M("C06-fragment", [(TG, '''        if ref_value.startswith("#"):
''', '''        if "#" in ref_value:
''')], '''
d = doc(); d["info"]["tags"] = [R("https://x.y/z.json#/components/tags/t")]
assert ok(d, T)
''', "a reference into another document with a fragment", "it is rejected as internal")

M("C06-components", [(TG, '''        self.validate_components_channels_messages_tags_refs(spec)
''', '''        if spec.channels:
            self.validate_components_channels_messages_tags_refs(spec)
''')], '''
d = doc(components={"channels": {"c": {"messages": {"m": {"tags": [R("#/components/tags/no")]}}}}})
assert not ok(d, T)
''', "a bad tag reference in a message of a component channel of a document without channels", "it is not checked")

M("C07-hdr", [(ED, '''                    if isinstance(trait, Reference) or not trait.headers:
                        continue
                    self._validate_ref_field(
                        spec,
                        trait.headers,''', '''                    if isinstance(trait, Reference) or not trait.headers:
                        continue
                    self._validate_ref_field(
                        spec,
                        msg.headers or trait.headers,''')], '''
d = doc(channels={"c": {"messages": {"a": {"headers": {}, "traits": [{"headers": {"externalDocs": R("#/components/externalDocs/no")}}]}}}})
assert not ok(d, E)
''', "a bad reference in the headers of a trait of a channel message that has headers itself", "it is not checked")

M("C07-collref", [(ED, '''        for name, item in collection.items():
            if isinstance(item, Reference):
                continue
''', '''        for name, item in collection.items():
            if isinstance(item, Reference):
                break
''')], '''
d = doc(servers={"a": R("#/components/servers/x"), "b": {"host": "h", "protocol": "p", "externalDocs": R("#/components/externalDocs/no")}})
assert not ok(d, E)
''', "a bad reference in an entry that follows an entry that is a reference", "it is not checked")

M("C07-optags", [(ED, '''            if isinstance(operation, Reference) or not operation.tags:
                continue
''', '''            if isinstance(operation, Reference) or not operation.tags or operation.external_docs:
                continue
''')], '''
d = doc(channels={"c": {}}, operations={"o": {"action": "send", "channel": R("#/channels/c"), "externalDocs": {"url": "http://x.y"},
   "tags": [{"name": "t", "externalDocs": R("#/components/externalDocs/no")}]}})
assert not ok(d, E)
''', "an operation with external docs and a tag with a bad external docs reference", "the tag is not checked")
