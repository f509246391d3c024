#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
VS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
def files(kind, vs=VS): return [f"src/generated_schema/{v}/{kind}.rs" for v in vs]
S, U = "mcp_schema", "schema_utils"
props = []
def P(id, title, statement, qover, qtext, why, files, mech, observe):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=qover, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

P("C01", "Documents that conform to the official schema parse and re-serialize unchanged",
  "For every protocol version and every exported type that corresponds to a definition of that version's official MCP schema, a JSON document that conforms to the definition (required members present, any subset of the optional ones, declared value types) is accepted by the type's deserializer. Serializing the parsed value yields the same JSON document: every member is still there under the same name with the same value, and nothing is added (numbers compare by value; an optional member that holds null, an empty array or an empty object may be written as absent).",
  ["inputs"], "every conforming document: all leaf strings, integers, floats and booleans, every combination of optional members, every alternative of a union, every standard method/const value, for each of the six schema features",
  "The existing tests parse a few dozen fixed sample messages, mostly of the envelope types; they reach a small fraction of the ~800 generated definitions, never toggle optional members independently, and cannot cover all leaf values.",
  files(S), [("derived and hand-written Serialize/Deserialize of every schema type", "src/generated_schema/*/mcp_schema.rs"), ("field validators used by deserializers", "src/generated_schema/*/validators.rs")],
  ["serde_json::from_value / to_value of each exported schema type"])
P("C02", "Documents missing a required member or with a wrongly typed member are rejected",
  "For every object definition of each version's official schema, a document that conforms except that one required member is absent is rejected by the corresponding type; it is never completed with an invented value. A document in which one declared string, number, boolean, array or object member instead holds a JSON value of another kind is rejected as well (null in an optional member counts as absent, and JSON arrays in place of objects are not considered).",
  ["inputs"], "every object definition in every schema feature, every required member, every wrong JSON kind at each declared member, all values of the other leaves",
  "Existing tests contain a handful of negative samples; no test removes each required member or changes the kind of each member in turn, for all values of the remaining members.",
  files(S), [("required/optional and typed fields of generated structs", "src/generated_schema/*/mcp_schema.rs")],
  ["serde_json::from_value of each exported schema type"])
P("C03", "Fixed discriminator members admit exactly their schema constant",
  "Where the official schema fixes a string member of an object to one constant (the JSON-RPC version, a method name, a content or reference type, and so on), the corresponding type accepts the document when the member is that constant and rejects it for every other string. Values built through the type's constructor always carry the constant.",
  ["inputs"], "every const member of every object definition in every schema feature; all strings up to the bounded length, including near misses of the same length",
  "Tests try at most one wrong constant for a few types; the claim ranges over all strings and over every const member.",
  files(S) + files("validators"), [("const_str_validator and typed constants", "src/generated_schema/*/validators.rs"), ("deserialize_with attributes and constructors", "src/generated_schema/*/mcp_schema.rs")],
  ["serde_json::from_value of each type with a const member", "constructors and default values"])
P("C04", "A request or notification becomes the variant that its method names",
  "When a client or server request or notification in JSON-RPC form is parsed through the version's request/notification unions and message types, the typed variant produced is the one whose schema definition carries that exact method name, and the parsed value reports the same method name. A method that is not a standard one for that direction never yields a standard variant: the message becomes a custom request/notification carrying its method and params where the version provides one, and is an error otherwise. The same fallback applies to a standard method whose params do not conform to its definition.",
  ["inputs"], "all method strings up to the bounded length (every standard method and every non-standard string), all ids, in both directions, for each schema feature",
  "Tests exercise each standard method at most once with a fixed sample, and one or two custom method names; the claim is over all method strings.",
  files(S) + files(U), [("ClientRequest/ServerRequest/ClientNotification/ServerNotification dispatch on method", "src/generated_schema/*/mcp_schema.rs"), ("RequestFromClient/RequestFromServer/Notification* standard-or-custom dispatch", "src/generated_schema/*/schema_utils.rs")],
  ["serde_json::from_value into ClientRequest, ServerRequest, ClientNotification, ServerNotification, ClientMessage, ServerMessage and the JSON-RPC envelopes; method()"])
P("C05", "JSON-RPC envelopes are classified by their members and keep their identity",
  "A JSON-RPC object with an id and a method parses as a request, with a method and no id as a notification, with an id and a result as a response, and with an error as an error, in both the client and the server message type; exactly one of the four kind predicates holds and agrees with the reported message type. The reported id, JSON-RPC version and method equal those in the document (none where the kind has none), and serializing the message yields the document again. An object that is none of the four kinds is rejected.",
  ["inputs"], "all ids (any integer or bounded string), all error codes/messages, method and params drawn from every standard method and arbitrary custom ones, both directions, each schema feature",
  "Tests classify a fixed sample of each kind; they cannot cover all ids, methods, payload values and their combinations.",
  files(U), [("ClientMessage/ServerMessage untagged deserialization", "src/generated_schema/*/schema_utils.rs"), ("RpcMessage/McpMessage accessors", "src/generated_schema/*/schema_utils.rs")],
  ["FromStr/Deserialize of ClientMessage and ServerMessage, request_id(), jsonrpc(), method(), message_type(), is_*()"])
P("C06", "Results survive a trip through the response types without loss",
  "Any result object that conforms to a result definition of the official schema, placed in a JSON-RPC response with any id, is accepted by the response and message types of the side that sends it, and is written back with the same id and the same result members. An object with additional members the definition permits keeps them. When no other result definition of that side could describe the object, the value parsed is the variant of its own definition; in the 2026_07_28 and draft schemas an input-required result is recognized exactly by its resultType, and a result without resultType counts as complete.",
  ["inputs"], "every result definition of each schema feature, all leaf values and optional members, all ids, both directions",
  "Untagged result unions pick the first alternative that happens to fit, so whether data is lost depends on the values and on which optional members are present; tests check a few fixed responses.",
  files(S) + files(U), [("ServerResult/ClientResult unions and response envelopes", "src/generated_schema/*/mcp_schema.rs"), ("Client/ServerJsonrpcResponse (de)serializers", "src/generated_schema/*/schema_utils.rs")],
  ["serde_json::from_value/to_value of ServerJsonrpcResponse, ClientJsonrpcResponse, ServerMessage, ClientMessage"])
P("C07", "Wrapping a payload into a JSON-RPC message preserves it and enforces the id rule",
  "Building a client or server message from a request or result payload succeeds exactly when a request id is given, and from a notification exactly when none is given; the built message has the matching kind, carries exactly the given id, JSON-RPC version 2.0, the payload's method and the payload unchanged. Converting a message back into its payload returns what was put in, and conversions between the payload, message and envelope types keep the JSON value.",
  ["inputs"], "every standard payload variant plus custom ones, ids present/absent and of both kinds with any value, both directions, each schema feature",
  "Tests wrap a few payloads with one id; there are hundreds of payload-variant/id-presence combinations and unbounded values.",
  files(U), [("FromMessage/ToMessage, JSON-RPC envelope constructors, From conversions", "src/generated_schema/*/schema_utils.rs")],
  ["from_message/to_message, new(), From conversions, to_value of the result"])
P("C08", "Narrowing a union to a concrete type succeeds exactly for that type",
  "Every conversion or accessor that extracts a concrete request, notification, result, response, content or resource type from a union returns the contained value unchanged when the union holds that type, and fails (error or nothing) when it holds any other alternative, without panicking. Predicates such as 'is an initialize request' hold exactly for the alternative they name.",
  ["inputs"], "every narrowing function x every alternative of the union it accepts, all leaf values, each schema feature",
  "Tests call a few accessors on the matching variant and rarely on a mismatched one; the claim is over the full product.",
  files(S) + files(U), [("TryFrom impls and as_* accessors", "src/generated_schema/*/schema_utils.rs"), ("enum conversions", "src/generated_schema/*/mcp_schema.rs")],
  ["TryFrom/as_*/is_* functions on unions"])
P("C09", "Request ids keep their JSON kind and value; equality, hash and text agree",
  "A request id or progress token parses from exactly the JSON integers (64-bit signed) and strings and is written back as the same JSON kind and value; every other JSON kind is rejected. Two ids are equal exactly when they are of the same kind with the same value, equal ids hash equally, and the printed form of an id is its value in text.",
  ["inputs"], "all pairs of 64-bit integers and all pairs of bounded strings, all mixed pairs, each schema feature",
  "The claim ranges over all pairs of ids (including a string that looks like a number); tests compare a couple of literals.",
  files(S) + files(U), [("RequestId/ProgressToken untagged enums", "src/generated_schema/*/mcp_schema.rs"), ("RequestId Eq/Hash/Display", "src/generated_schema/*/schema_utils.rs")],
  ["from_value/to_value, ==, Hash, Display of RequestId"])
P("C10", "Closed sets of names parse, print and serialize consistently",
  "For every enumeration of names in the official schema (roles, log levels, task states, and so on), text parsing, deserialization, printing and serialization agree: exactly the schema's names are accepted, each maps to a distinct value, and that value prints and serializes as the same name. The protocol version list has the same property: each listed version parses back to itself from its printed text, every other string is rejected, and their order is chronological with the latest one last.",
  ["inputs"], "all strings up to the bounded length for every string enumeration of each schema feature and for the protocol version type",
  "Tests check chosen names; they cannot show that every other string is rejected nor that all routes agree for all names in all versions.",
  files(S) + ["src/generated_schema/protocol_version.rs"], [("string enums: FromStr/TryFrom/Display/serde", "src/generated_schema/*/mcp_schema.rs"), ("ProtocolVersion", "src/generated_schema/protocol_version.rs")],
  ["FromStr, TryFrom, Display, from_value, to_value"])
P("C11", "Errors carry their standard code, message and data through every conversion",
  "Each named error constructor of the RPC and SDK error types yields the code reserved for that name together with the message for that same name, and replacing the message or data changes nothing else. Converting a tool failure into an RPC error or a tool result keeps its text and marks it as an error, and an error object round-trips through JSON with code, message and data intact. No constructor panics, whatever its arguments.",
  ["inputs"], "every error constructor, all codes, all bounded messages and data presence, each schema feature",
  "Tests print one or two errors; nothing checks all constructors in all versions or arbitrary codes and texts.",
  files(U), [("SdkError, SdkErrorCodes, RpcError, RpcErrorCodes, CallToolError", "src/generated_schema/*/schema_utils.rs")],
  ["fields of the error values, to_value, From conversions, Display"])
P("C12", "Capability checks allow exactly what the advertised capabilities cover",
  "The server-side check for a client request or notification, and the client-side check for a server request or notification, succeed exactly when the capability object advertises the capability that the MCP specification requires for that method (methods requiring none are always allowed). Otherwise they return an error that names the missing capability, and no combination of capabilities and method makes them panic. In 2025_11_25 the same holds for the optional features of a request that have their own capability: task augmentation, the inclusion of context other than \"none\", and sampling with tools.",
  ["inputs", "configurations"], "all combinations of advertised capabilities x every request/notification method and custom methods, for the schema features that have the checks (2025_11_25, 2026_07_28, draft)",
  "The claim is over the product of all capability subsets and all methods in every version that has the checks; the tests contain no such matrix.",
  files(U, VS[3:]), [("ServerCapabilities/ClientCapabilities can_handle_request and can_accept_notification", "src/generated_schema/*/schema_utils.rs")],
  ["return values of can_handle_request, can_accept_notification and the task predicates"])
P("C13", "Form field schemas convert from raw maps without panicking, loss or confusion",
  "Converting a raw JSON map describing an elicitation form field succeeds for every map that conforms to one of the version's primitive field definitions, yields the kind of field that its type member (and enumeration members) name, and keeps title, description, bounds, default and choices. A map without a supported type, or lacking members its kind requires, yields an error; no map makes the conversion panic.",
  ["inputs"], "all values of the type member, presence and JSON kind of every other member, all leaf values, for the schema features that have elicitation",
  "Tests convert one or two maps; the claim is over all maps including unsupported types and wrongly typed members.",
  files(U, VS[2:]), [("TryFrom<&Map> for PrimitiveSchemaDefinition", "src/generated_schema/*/schema_utils.rs")],
  ["PrimitiveSchemaDefinition::try_from(&map), to_value of the result"])
P("C14", "Batches keep the order, number and kind of their messages",
  "A JSON array of messages parses as a batch holding one message per element in the same order, a JSON object parses as a single message, and both write back the same JSON. The single/batch predicates, the 'includes a request' predicate and the single/batch extractors agree with what was parsed, the wrong extractor returns an error, and the same holds for the single/batch types of message payloads.",
  ["inputs"], "all batches up to the bounded length with every combination of message kinds, all ids and leaf values, both directions, each schema feature",
  "Tests cover one fixed batch; the claim is over all mixes and orders of kinds.",
  files(U), [("ClientMessages/ServerMessages/MessagesFromClient/MessagesFromServer", "src/generated_schema/*/schema_utils.rs")],
  ["from_value/to_value, is_batch, includes_request, as_single, as_batch, from_message"])
P("C15", "Content and tool-result builders produce exactly the values they are given",
  "Each constructor and each helper that builds a content block, resource contents or tool result from parts yields a schema-conforming value whose members equal the given parts, with the right discriminator, and no other member set. Adding metadata, a MIME type, an error flag or structured content changes only that member.",
  ["inputs"], "every builder, all bounded part strings, all presence combinations of optional parts, each schema feature",
  "Tests build a few values with literal parts; the claim is over all parts and every builder in every version.",
  files(U) + files(S), [("CallToolResult/ContentBlock/TextContent/ImageContent/... helpers", "src/generated_schema/*/schema_utils.rs")],
  ["to_value of built values"])
P("C16", "Task, metadata and input-request helpers do exactly what they name",
  "Metadata helpers set or return exactly the entry they name, leave every other entry as it was, and can be read back both through the accessor and in the JSON form; the multi-round-trip helpers (input requests, input responses, request state) put and find exactly the entries given. Task helpers report a task status as terminal exactly for completed, failed and cancelled, and report a request as task-augmented exactly when it carries task parameters.",
  ["inputs", "histories"], "all helper calls in the two newest schema generations, all bounded keys/values, sequences of up to three calls, every standard request variant",
  "Tests use one fixed value per helper; interactions between helpers and between request variants are not covered.",
  files(U, VS[3:]), [("McpMetaEx, task helpers", "src/generated_schema/2025_11_25/schema_utils.rs"), ("with_meta/with_input_responses/with_request_state, RequestMetaObject, InputRequests/InputResponses", "src/generated_schema/2026_07_28/schema_utils.rs")],
  ["helper return values and to_value"])
P("C17", "Parsing arbitrary text never panics and agrees with structured parsing",
  "Parsing any text as a message, request, notification, response or error value returns either a value or an error whose code is the JSON-RPC parse error code; it never panics. When it returns a value, printing that value gives text that parses to an equal JSON document, and the accepted value is the one obtained by deserializing the same JSON directly. (Objects that repeat a member name are not considered: JSON gives them no meaning.)",
  ["inputs"], "all byte strings up to a small bound that are valid UTF-8, and all messages with bounded symbolic string/number tokens at chosen positions, for each text-parsing entry point and schema feature",
  "Tests parse a few valid messages and hardly any malformed text; the claim is over all texts.",
  files(U), [("FromStr/Display impls", "src/generated_schema/*/schema_utils.rs")],
  ["FromStr, Display of message and envelope types"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
