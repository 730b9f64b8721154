#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,title
    P.append(d)
EXT="pkg/extensions/"
G="pkg/codegen/generators/"
p("P01","Cancelling a channel subscription always completes, exactly once, without crash",
  "When a channel subscription is cancelled, under every interleaving of the cancelling caller, the broker side still delivering messages and the consumer still reading: the broker's cleanup runs exactly once, then the message channel is closed, and the cancel call returns only after that (or as soon as its context is done). No interleaving crashes the process, deadlocks, or leaves the subscription half cancelled, whether the cancellation comes right after the subscription or while deliveries are blocked on a full queue. Every message the consumer reads is one that was delivered, in delivery order, at most once, and messages delivered before the cancellation was requested are still readable.",
  ["schedules"],"all interleavings (up to a preemption bound) of one canceller, one or two deliverers, a consumer that may have stopped reading, with and without context cancellation, for queue capacities 0..2",
  "Only the live-broker tests exercise cancellation, with one schedule each; none are in the stable suite.",
  [EXT+"broker.go"],[("request/acknowledge on the cancel channel","pkg/extensions/broker.go: Cancel, WaitForCancellationAsync"),("message transmission","pkg/extensions/broker.go: TransmitReceivedMessage")],
  ["return of the cancel call","cleanup callback","message channel"],[("cancel","channel carrying the cancellation request and, by closing, its completion","pkg/extensions/broker.go"),("messages","queue between broker and consumer","pkg/extensions/broker.go")])
p("P02","A message is acknowledged or rejected at most once, and first decision wins",
  "Whatever sequence of acknowledge and reject calls is made on a received message, the broker is told exactly one outcome: that of the first call; a message nobody acknowledges or rejects produces none. The outcome reported to the broker is the requested one (acknowledge or reject), and the message content is unaffected.",
  ["histories"],"all sequences of acknowledge/reject up to length 7, on messages built directly and after passing through 0-2 subscription queues",
  "No stable test touches acknowledgements.",[EXT+"broker.go"],[("once flag","pkg/extensions/broker.go: Ack, Nak")],["broker acknowledgment callbacks"])
p("P03","Versioned subscriptions receive exactly the messages of their version",
  "Through the versioning wrapper, every message published or received on a channel is delivered exactly once, unmodified and in order, to the subscription registered for its version on that channel, where the version is the configured header's value or, when it is absent or empty, the configured default version. A message with no version and no default, or with a version nobody subscribed to, is delivered to nobody, is reported to the logger as itself, and does not disturb later messages. Publishing tags the message with the version found in the context under the configured header and leaves everything else alone, the message of the caller included.",
  ["inputs","histories"],"all message sequences up to length 4 over versions {A,B,unknown,empty,none} x subscriber sets x default-version setting x header key, with subscribe/unsubscribe operations in between",
  "The versioning package has no stable test; the only one needs a live broker and two versions.",
  [EXT+"versioning/wrapper.go",EXT+"versioning/broker_subscription.go",EXT+"versioning/version_subscription.go"],
  [("routing by header","pkg/extensions/versioning/broker_subscription.go: launchListener"),("version tagging","pkg/extensions/versioning/wrapper.go: Publish")],["messages read by each subscription","messages reaching the wrapped broker"])
p("P04","Versioned subscribe, unsubscribe and delivery never deadlock, crash or leak",
  "Under every interleaving of subscriptions, cancellations and ends of the contexts of several versions of one or several channels with message delivery (including messages of unknown versions), every operation completes, nothing panics, and other versions keep receiving their messages. The wrapper holds exactly one underlying subscription per channel while at least one version is subscribed, has released it when the cancellation of the last version returns, and both the version and the channel can then be subscribed again; subscribing an already subscribed version is refused.",
  ["schedules","histories"],"all interleavings up to a preemption bound of 2-3 concurrent subscribe/cancel/deliver operations; all operation histories up to depth 5 over 2 channels x 2 versions",
  "Lock-order and unlock-on-error-path mistakes only show under specific interleavings or on message kinds no test sends.",
  [EXT+"versioning/wrapper.go",EXT+"versioning/broker_subscription.go",EXT+"versioning/version_subscription.go"],
  [("channel and version mutexes","pkg/extensions/versioning"),("removal of the last version","pkg/extensions/versioning/broker_subscription.go: removeVersionListener")],["completion of calls","subscriptions open on the wrapped broker"])
p("P05","Middlewares run in order, each once, and wrap the operation exactly once",
  "For every message sent or received through a generated controller, the configured middlewares run in their configured order, each exactly once, and the operation itself (publication or handling) runs exactly once after them, whether a middleware calls next zero, one or several times. A middleware that returns an error before calling next prevents everything after it, and that error is the result of the operation; changes a middleware makes to the message or the context are seen by everything after it. The supplied logging, interception and recovery middlewares do not alter the message or block the operation, and a recovered panic is logged and does not reach the caller.",
  ["programs","inputs"],"all chains of up to 4 middlewares over a behaviour alphabet (no next, one next, two nexts, fail before, fail after, swallow the error, edit message, edit context, panic) x operation outcome x side (publication, reception, reply), v2 and v3",
  "The stable suite never runs generated code with middlewares.",
  [G+"v2/templates/controller.tmpl",G+"v3/templates/controller.tmpl",EXT+"middlewares/intercepter.go",EXT+"middlewares/logging.go",EXT+"middlewares/recovery.go"],
  [("wrapping with called flags","controller.tmpl: wrapMiddlewares/executeMiddlewares")],["order of middleware entries","publications on the broker","handler calls"])
p("P06","Every received message is handled once, then acknowledged or rejected",
  "A subscribed generated controller passes every message read from the broker, in order and exactly once, to the registered handler with the decoded content and with version, provider, channel, direction, raw message and (when present) correlation identifier in the context. It acknowledges the message only after the handler succeeded; if decoding, a middleware or the handler fails, it calls the error handler once with that error and then rejects the message, and goes on with the next message. Messages already queued when the subscription is closed are still processed, and the processing loop then ends.",
  ["histories","fault_sequences","schedules"],"all sequences up to length 4 of messages over {handled ok, handler error, undecodable, middleware error} x close point, over interleavings up to a preemption bound, v2 and v3",
  "Acknowledgement and error handling of generated code are only reached with a live broker.",
  [G+"v2/templates/controller.tmpl",G+"v3/templates/controller.tmpl"],[("receive loop","controller.tmpl: listenTo...NextMessage")],["handler and error handler calls","acknowledgements"])
p("P07","Controller subscriptions: one per channel, removable, re-creatable, closable",
  "On a generated controller each channel address has at most one active subscription: a second subscribe to the same address is refused with the already-subscribed error and leaves the first one working, while different addresses (including different parameter values of one channel) are independent. Unsubscribing stops exactly that subscription, is a no-op when not subscribed, and allows subscribing again; a failed subscribe leaves nothing behind. Subscribe-all subscribes every parameterless reception channel, and unsubscribe-all or closing the controller ends the subscriptions made on it.",
  ["histories"],"all histories up to depth 4-5 of 13 operations: subscribe, unsubscribe, subscribe-all, unsubscribe-all, close, broker failure and message delivery over a parameterless and a parameterised channel, v2 and v3",
  "Histories of subscription operations on generated code are not run by the stable suite.",
  [G+"v2/templates/controller.tmpl",G+"v3/templates/controller.tmpl"],[("subscription map","controller.tmpl: subscriptions")],["subscriptions open on the broker","returned errors","handler calls"],[("subscriptions","active subscriptions by address","controller.tmpl")])
p("P08","A request returns its own reply: right correlation, subscribed before sending",
  "A generated request (or wait-for) call subscribes to the reply address before the request is published, so a reply sent at any moment after the publication is never missed; it returns the first reply whose correlation identifier equals that of the request, ignoring every other message, or the first decodable message when no correlation is specified. Concurrent requests on one controller never receive each other's replies, each reply consumed is acknowledged, and the reply subscription is always cancelled before the call returns. A reply built from a request carries that request's correlation identifier and goes to the address the request designates; one without a correlation identifier, or with no designated address, is refused.",
  ["schedules","inputs"],"all interleavings up to a preemption bound of 1-2 requesters and a replier emitting every sequence up to length 3 of {matching, other correlation, none, undecodable} replies, v2 and v3",
  "The stable suite does not execute generated request/reply code; live-broker tests send one matching reply.",
  [G+"v2/templates/controller.tmpl",G+"v3/templates/controller.tmpl",G+"v3/templates/message.tmpl"],[("subscribe-then-send","controller.tmpl: Request.../WaitFor..."),("correlation filter","controller.tmpl: waitFor...")],["broker operations order","returned reply"])
p("P09","A waiting request ends when its context ends or its subscription is lost",
  "A generated request or wait-for call always returns in a bounded number of steps once its context is done (with the context-cancelled error) or once its reply subscription is closed (with the subscription-cancelled error), whatever messages arrived before and whatever failures middlewares or decoding produced meanwhile. If subscribing or sending fails, the call returns that failure and leaves no subscription open.",
  ["schedules","fault_sequences"],"all interleavings up to a preemption bound of the requester with context cancellation, loss of the subscription, and sequences up to length 2 of irrelevant, undecodable or matching messages; every failing step of subscribe/send",
  "Termination under cancellation cannot be observed by a test with one schedule and no timeout; the stable suite does not run it at all.",
  [G+"v2/templates/controller.tmpl",G+"v3/templates/controller.tmpl"],[("wait loop","controller.tmpl: Request.../WaitFor...")],["return of the call and its error","open subscriptions"])
p("P10","Sending publishes exactly once, to the right address, the faithful message",
  "A successful send on a generated controller results in exactly one publication on the broker, at the channel's address with its parameters substituted, carrying the encoded message as left by the middlewares; a failed one (encoding failure, middleware error, missing required header) publishes nothing and returns the error, and a broker failure is returned as is. When the message type has a correlation identifier, a missing one is generated and an existing one kept, and the context given to middlewares and broker holds version, provider, channel, direction, raw message and correlation identifier. Concurrent sends on one controller do not affect each other.",
  ["inputs","schedules","fault_sequences"],"all combinations of message shapes, set or unset correlation, parameter values from a small alphabet, middleware and broker outcomes; pairs of concurrent sends over all interleavings up to a preemption bound, with race detection",
  "Sends of generated code are not executed by the stable suite.",
  [G+"v2/templates/controller.tmpl",G+"v3/templates/controller.tmpl",G+"v2/templates/message.tmpl",G+"v3/templates/message.tmpl"],[("send pipeline","controller.tmpl: Send.../Publish...")],["publications on the broker","context values"])
p("P11","JetStream: every message reaches its subscription once, others are acknowledged",
  "With the JetStream broker, every stream message whose subject matches a subscribed channel is delivered once, in order, with its headers and payload, to that subscription, and its acknowledgement or delayed rejection is forwarded to the stream; a message matching no subscription is acknowledged and dropped. Consumption starts with the first subscription and stops with the last, and subscribing or cancelling channels while messages flow, in any interleaving, neither crashes, deadlocks, nor races. The controller uses the connection, stream, consumer and rejection delay it is given, creates or updates the stream and the consumer it has a configuration for, refuses a configuration without a name, and closes exactly the connections it opened.",
  ["schedules","histories"],"all interleavings up to a preemption bound of subscribe/cancel/deliver over 2 channels and 3 messages, on an in-memory stand-in for the JetStream client; all operation histories up to depth 4",
  "JetStream tests need a live server and one schedule.",[EXT+"brokers/natsjetstream/natsjetstream.go"],[("dispatch by subject","ConsumeMessage"),("per-channel queues","Subscribe")],["messages per subscription","acks on the stream"])
p("P12","Subject patterns match exactly as NATS defines them",
  "A subscription pattern matches a subject exactly when the NATS rules say so: tokens separated by dots, '*' matches exactly one non-empty token, a trailing '>' matches one or more tokens, and every other token matches literally; an empty pattern or subject, or a pattern with '>' before its last token, matches nothing.",
  ["inputs"],"every pattern of up to 4 tokens over {a,b,*,>,empty} against every subject of up to 4 tokens over {a,b,c,empty}",
  "The existing table tests a dozen pairs.",[EXT+"brokers/natsjetstream/natsjetstream.go"],[("token matcher","MatchSubjectSubscription")],["return value"])
p("P13","NATS: messages pass through faithfully and unsubscribing is clean",
  "With the NATS broker, publishing sends exactly one message with the given subject, payload and headers and reports failures of the send or the flush; subscribing uses the configured queue group and delivers each incoming message once, in order, with its payload and first value of each header. Cancelling drains the subscription once and, in any interleaving with incoming messages, neither crashes nor deadlocks; failures to connect or subscribe are reported.",
  ["schedules","inputs","fault_sequences"],"all interleavings up to a preemption bound of deliveries and cancellation on an in-memory stand-in for the NATS client; all header/payload shapes from a small alphabet; every failing client call",
  "NATS tests need a live server.",[EXT+"brokers/nats/nats.go"],[("handler","messagesHandler"),("drain on cancel","Subscribe")],["client calls","delivered messages"])
p("P14","Kafka: commits only decided messages; none is lost, doubled or stuck",
  "With the Kafka broker in manual-commit mode, a message's offset is committed exactly once and only after that message has been acknowledged or rejected; in automatic mode the adapter commits nothing itself. In both modes every message read is delivered once, in order, with its payload and headers, reading stops when the subscription is cancelled or the reader fails, and no interleaving of reading, acknowledging and cancelling crashes or deadlocks.",
  ["schedules","fault_sequences","histories"],"all interleavings up to a preemption bound of the reader loop, acknowledging consumer and canceller over 3 messages, with reader and commit failures at every position, on an in-memory stand-in for the Kafka client",
  "Kafka tests need a live broker.",[EXT+"brokers/kafka/kafka.go"],[("commit on acknowledgment","manualCommitMessagesHandler"),("reader loop","autoCommitMessagesHandler")],["commit calls","delivered messages"])
p("P15","Kafka: publishing and configuration are faithful and confined to the controller",
  "With the Kafka broker, publishing writes exactly one message with the given topic, payload and headers, creating the topic (one partition, so that order is kept) and retrying when it does not exist and returning any other failure; the writer is always closed. Every configuration option (hosts, group, partition, size, security, commit mode, connection test) is applied to the connections of that controller and of no other controller or client in the process.",
  ["fault_sequences","configurations"],"all sequences up to length 3 of client answers {ok, unknown topic, other error} at each step; all subsets of options over two controllers created in either order",
  "Kafka tests need a live broker and use one configuration.",[EXT+"brokers/kafka/kafka.go"],[("publish retry loop","Publish"),("options","With...")],["client calls and configuration"])
p("P16","Messages survive encoding to the broker and back, for every message shape",
  "For every supported payload type and format and every combination of required and optional headers, decoding what encoding produced yields an equal message, including extreme values, empty strings, and unset optional fields (up to the documented precision of date formats). Decoding bytes that are not an encoding of the type returns an error rather than crashing or inventing content, unknown headers are ignored, and an unset required pointer header is an error.",
  ["inputs","programs"],"every payload type/format (object, array, string, date-time, int32, int64, float, double; inline or by reference) x header kinds x requiredness x values from an extreme-value alphabet, and all byte strings up to length 9 from a small alphabet for decoding, v2 and v3",
  "The stable suite compiles one or two fixed shapes and round-trips none of the scalar payloads.",
  [G+"v2/templates/message.tmpl",G+"v3/templates/message.tmpl"],[("payload encoding","message.tmpl: toBrokerMessage"),("payload decoding","message.tmpl: brokerMessageTo...")],["broker message bytes","decoded message"])
p("P17","Objects with additional properties round-trip through JSON",
  "For every generated object type that allows additional properties, marshalling yields valid JSON holding exactly the declared fields and the additional entries with their values and types, for any keys and values; unmarshalling valid JSON puts every undeclared key, and no declared one, in the additional properties, so that marshalling and unmarshalling are inverse up to key order.",
  ["inputs","programs"],"object shapes with 0-2 declared properties x additional property type (string, integer, number, boolean, object) x key-conversion option, x additional maps up to 2 entries over keys with quotes, control and non-ASCII characters, v2 and v3",
  "The existing tests marshal one fixed key and value.",
  [G+"v2/templates/marshaling/additional_properties.tmpl",G+"v3/templates/marshaling/additional_properties.tmpl"],[("custom marshalling","additional_properties.tmpl")],["JSON text","decoded struct"])
p("P18","Generated structs keep JSON presence: required always, optional only when set",
  "In JSON produced from generated types, every required property is present under its exact (possibly converted) name, every optional property is present exactly when set, and explicitly requested omission or retention of empty values is honoured. Decoding JSON that satisfies the schema yields the same values, with absent optional properties unset and distinguishable from zero values, and re-encoding it gives the same document.",
  ["inputs","programs","configurations"],"all objects with 2-3 properties over {string, integer, number, boolean, date-time, array, object, reference} x required x omit-empty extension x force-pointers, and all present/absent/zero/non-zero instances, v2 and v3",
  "Existing tests check tag strings of a few fields or single JSON documents.",
  [G+"helpers.go",G+"v2/templates/schema_definition.tmpl",G+"v3/templates/schema_definition.tmpl",G+"v2/templates/helpers.go",G+"v3/templates/helpers.go"],[("json tags","helpers.go: GenerateJSONTags"),("pointer fields","templates/helpers.go: isFieldPointer")],["JSON text"])
p("P19","Generated validation accepts exactly what the schema's constraints allow",
  "A value of a generated type passes the generated validation rules exactly when it satisfies the specification's constraints on that property: length bounds, inclusive and exclusive numeric bounds, uniqueness of items, string enumerations and constants, and presence of required properties; an absent optional property is always accepted. When several parts of a combined schema constrain the property, all those of an allOf must be satisfied, and what one of the alternatives allows is not refused.",
  ["inputs","programs"],"all single constraints and pairs of constraints with bounds from {1,2,3} x property type x required x values straddling every bound; all pairs of constraints on a property that two parts of an allOf, anyOf, oneOf or message define, v2 and v3",
  "Existing tests compare a few tag strings, not the set of accepted values.",
  [G+"helpers.go","pkg/asyncapi/schema.go"],[("validate tags","helpers.go: GenerateValidateTags")],["validator verdict"])
p("P20","References resolve to the object they name, or generation reports an error",
  "Every internal or cross-file reference in a document, at whatever depth or nesting it occurs and including chains of references, resolves to the object it names, so that generated types have the same fields as if it had been written inline. A reference to something absent, malformed or of the wrong kind makes generation return an error naming it; it never panics, hangs or silently produces code without it.",
  ["inputs"],"every reference position (message, payload, headers, property, items, additional properties, anyOf/oneOf/allOf, parameter, operation, channel, correlation, reply) x target kind {inline, component, chain of 2, other file} x well-formed and 12 malformed reference strings, v2 and v3",
  "Tests cover a handful of well-formed references.",
  ["pkg/asyncapi/v2/specification.go","pkg/asyncapi/v3/specification.go","pkg/asyncapi/v3/schema.go","pkg/asyncapi/v2/schema.go"],[("reference lookup","specification.go: reference, Reference...")],["error returned","generated types"])
p("P21","Combined schemas (allOf, anyOf, oneOf) generate the union of their parts",
  "A schema composed with allOf, anyOf or oneOf generates a type having exactly the properties of all its parts and its own, whatever the order and nesting of the parts and whether they are inline or referenced; a property is required only when the composition requires it (any part of an allOf). Composing does not alter the schemas it refers to, so that their own types stay the same.",
  ["inputs"],"all compositions of up to 3 parts over inline/reference x object shapes with overlapping and disjoint properties x nesting depth 2 x order, v2 and v3",
  "Tests check one composition of each kind.",
  ["pkg/asyncapi/v2/schema.go","pkg/asyncapi/v3/schema.go","pkg/asyncapi/schema.go"],[("merge","schema.go: MergeWith")],["generated struct fields"])
p("P22","Traits apply to messages and operations without overriding them",
  "Applying traits to a message or operation fills in what it does not define itself (headers, payload, correlation, descriptive fields), in the order given, and never replaces what it does define; it leaves the traits and every other message or operation that uses them unchanged, so the result does not depend on which other messages share the trait.",
  ["inputs"],"all messages over {defines headers, correlation, description or not} x sequences of up to 2 traits, inline or referenced, shared by 1-2 messages (version 3, as version 2 has no support for traits)",
  "Tests cover one trait at a time.",
  ["pkg/asyncapi/v3/message.go","pkg/asyncapi/v3/message_trait.go","pkg/asyncapi/v3/operation.go","pkg/asyncapi/v3/operation_trait.go","pkg/asyncapi/v3/tag.go"],[("trait application","ApplyTrait")],["processed specification","generated types"])
p("P23","Generation is a function of the document and the options",
  "Generating twice from the same document with the same options, in the same or another process and after any other generation, gives byte-identical output or the same error, whatever order maps are iterated in. Options given to one generation (naming, key conversion, formats, pointers, parts) affect that generation only.",
  ["schedules","configurations","histories"],"every map-iteration order the runtime can produce, up to 2 deviations from a default, over documents with several channels, operations, messages, properties and compositions; all ordered pairs of option sets in one process",
  "A test run samples one iteration order; no test generates twice with different options.",
  ["pkg/codegen/codegen.go",G+"v2/generator.go",G+"v3/generator.go","pkg/utils/template/helpers.go","pkg/asyncapi/v3/specification.go"],[("sorted template ranges","templates"),("package-level settings","pkg/utils/template/helpers.go, templates/helpers.go")],["generated bytes"],[("global helpers","key conversion, naming and format settings kept in package variables","pkg/utils/template/helpers.go")])
p("P24","Whatever is generated without error compiles",
  "For every supported document and option set, a generation that reports success produces Go code that compiles by itself, with every requested part (types, application side, user side) and none of the parts not requested.",
  ["inputs","configurations"],"all combinations of small documents (payload kinds, header kinds, requiredness, operations, parameters, correlation location, reply forms) x subsets of generated parts x options, v2 and v3",
  "Tests compile a fixed set of specifications.",
  ["pkg/codegen/codegen.go",G+"v2/generator.go",G+"v3/generator.go",G+"v2/templates/controller.tmpl",G+"v3/templates/controller.tmpl"],[("templates","pkg/codegen/generators/*/templates")],["go build of the output"])
p("P25","Channel addresses substitute every parameter with its value",
  "For every channel address, the address a generated controller uses for sending, receiving and unsubscribing is the template with each parameter expression replaced by the value given for that parameter, every occurrence and nothing else, so that distinct values give distinct subscriptions and a receiver with the same values gets what a sender sends.",
  ["inputs"],"all address templates of up to 4 segments over {literal, parameter x, parameter y, percent sign, repeated parameter} x parameter values from a small alphabet, v2 and v3",
  "Tests use one parameter in one position.",
  [G+"v2/templates/helpers.go",G+"v3/templates/helpers.go"],[("address templates","templates/helpers.go: GenerateChannelPath, GenerateChannelAddr")],["address seen by the broker"])
p("P26","Documents are recognised, versions respected, and bad input gives an error",
  "A document is parsed according to its declared AsyncAPI version whether written in JSON or YAML, with identical results; an unsupported or missing version, unknown file format, or syntactically or structurally invalid content yields an error. No document, however truncated or with whatever element replaced by a value of another kind, makes parsing or processing panic.",
  ["inputs"],"all supported and a grid of unsupported version strings; every truncation and every single-node replacement by {null, empty object, empty array, string, number, boolean} or deletion of a set of feature-rich documents, in JSON and YAML",
  "Tests parse a few valid documents and three invalid ones.",
  ["pkg/asyncapi/parser/parse.go","pkg/asyncapi/versions.go","pkg/asyncapi/v2/specification.go","pkg/asyncapi/v3/specification.go"],[("version dispatch","parse.go")],["returned specification or error"])
p("P27","Structured logs keep every field and stay well-formed",
  "Every log call of the provided loggers prints one record containing the message, the level (in the text logger, as the colour of the record), and every given information field with its value under its (possibly dotted) key, along with channel, correlation identifier and message content when the context holds them; the JSON logger's record is always one line of valid JSON whatever the content of keys and values. Of fields whose keys are the same or nested in one another, the last one given stays; logging never alters the caller's data.",
  ["inputs"],"all lists of up to 3 fields over keys {a, a.b, a.b.c, b, empty} and values with quotes, newlines and non-ASCII, x subsets of context values x levels",
  "The loggers have no stable tests of combinations.",
  [EXT+"loggers/ecs.go",EXT+"loggers/text.go",EXT+"loggers/common.go"],[("nesting of dotted keys","loggers/common.go: structureLogs")],["standard output"])
p("P28","Generated names are valid, stable identifiers and conversions are idempotent",
  "Every name derived from an identifier of the document that has an ASCII letter is a valid exported Go identifier made of its ASCII letters and digits in order (less leading digits and parameter expressions), the same input always gives the same name, converting a converted name changes nothing, and key conversion (none, snake, camel, kebab) only changes word separation and case, never dropping letters or digits.",
  ["inputs"],"every string of up to 5 characters over {a, b, A, B, 1, -, _, /, ., space, {, }} and every key conversion",
  "Tests check a dozen names.",
  ["pkg/utils/template/helpers.go",G+"v2/templates/helpers.go",G+"v3/templates/helpers.go"],[("namify","pkg/utils/template/helpers.go: Namify")],["returned names"])
p("P29","Correlation identifiers and reply addresses are where the document says",
  "For every location a document gives for a correlation identifier or a reply address (in headers or payload, at any depth, declared or not, inline, by reference or by trait), what is set is read back, is in the encoded message at exactly that location, and is reported when the message is received; nothing else in the message changes, and the message of the sender stays as it was. Replies go to the address found in the request with the identifier of the request, and requests wait there and ignore other identifiers. A missing address or identifier gives an error and nothing is sent.",
  ["inputs"],"every location up to three steps, each step declared or not, required or optional, inline or by reference, with plain and special names, and every combination of present and absent steps in the message",
  "Tests have four locations, all of one or two plain names.",
  ["pkg/asyncapi/v2/message.go","pkg/asyncapi/v3/message.go","pkg/asyncapi/v3/operation_reply_address.go","pkg/asyncapi/reference.go",G+"v2/templates/helpers.go",G+"v3/templates/helpers.go",G+"v3/templates/message.tmpl",G+"v3/templates/controller.tmpl"],[("downToLocation","pkg/asyncapi/v3/message.go: downToLocation")],["messages sent to and received from the broker","returned identifiers","context values"])
p("P30","Controllers offer exactly the document's operations, with their messages",
  "For every document, each generated side has exactly the methods of the operations it takes part in: the application receives what users send and the reverse, requests and replies where the document has one, waiting where messages are correlated, and nothing for other operations, other sides or parts not asked for. Each method has the name of its operation, the parameters of its channel, and the message the document gives (listed by the operation or the reply, otherwise the first of the channel; in version 2, the one of the operation of that direction). The channel paths are exactly the addresses of the document's channels.",
  ["programs"],"every operation and every pair over {send, receive} x channels (inline, by reference, with parameters) x listed messages x reply channel and form, every set of channels and every choice of sides; version 2 channels with every combination of operations, identifiers and message forms",
  "Tests have one document per feature, and never both sides of all combinations.",
  [G+"v2/controller.go",G+"v2/subscriber.go",G+"v2/templates/helpers.go",G+"v3/common.go",G+"v3/controller.go",G+"v3/templates/helpers.go","pkg/asyncapi/v3/operation.go","pkg/asyncapi/v3/channel.go"],[("NewActionOperations",G+"v3/common.go: NewActionOperations"),("ChannelToMessage",G+"v2/templates/helpers.go: ChannelToMessage")],["methods of the generated controllers and subscribers","generated path constants"])
p("P31","Messages, context values and errors are told apart exactly",
  "A broker message counts as uninitialised exactly when it has neither headers nor payload (one that is present but empty counts as present), and its printed form holds each header once, quoted, and the payload as it is. The context helpers run the given function exactly once when the key is set with a value of the asked type (respectively: is not set, or equals the expected value) and otherwise not at all, whatever surrounds the value in the context, and the keys of the library collide neither with each other nor with keys of the same text. Every error the library declares is recognised, also when wrapped, as itself and as an AsyncAPI error, and as none of the others.",
  ["inputs"],"all messages over three keys x five values and seven payloads, nil and empty included; all contexts of a value of 17 kinds between two layers of 7 kinds, asked as 11 types; all pairs of keys and of errors",
  "Generated code, middlewares and loggers decide by these helpers on every message, and the tests sample two values.",
  [EXT+"broker.go",EXT+"context.go",EXT+"errors.go"],[("IfContextSetWith","pkg/extensions/context.go"),("BrokerMessage","pkg/extensions/broker.go: IsUninitialized, String")],["results and calls of the helpers"])
p("P32","The command generates exactly what its arguments ask for",
  "For every combination of its flags, in short or long form and in any order, the command writes to its output exactly what generation from these inputs with these options gives (the first input being the document and the others what it depends on, with the documented defaults for what is not given), and changes no other file. Anything invalid, and an output that cannot be written entirely, ends with a non-zero exit code and a message on the standard error, never a panic. When arguments or documents are refused, existing files stay as they were.",
  ["inputs"],"every flag with every form and value of a list, alone and in pairs, all at once in several orders, wrong flags and values at each place, missing and invalid documents, outputs that are missing, present, directories, read-only or too small",
  "The command has no test at all.",
  ["cmd/asyncapi-codegen/main.go","cmd/asyncapi-codegen/config.go","pkg/codegen/codegen.go","pkg/codegen/options/options.go"],[("ToCodegenOptions","cmd/asyncapi-codegen/config.go: ToCodegenOptions"),("FromFile","pkg/codegen/codegen.go: FromFile")],["the output file and every other file","exit code","standard error"])
p("P33","Valid documents are accepted and descriptions change nothing",
  "Every element of the AsyncAPI vocabulary, with every kind of value the standard allows for it (except lists of types and of item schemas, which are not supported and give an error), is accepted wherever the standard allows it. Elements that have no meaning for the generated code (tags, external documentation, bindings, servers, security, examples, titles, extensions, constraints without code) leave it exactly as it is, and with the others it compiles.",
  ["inputs"],"each element of the vocabulary of each kind of object, with each value of a list, at every place of feature-rich documents where the standard allows it, alone and everywhere at once",
  "Tests use a small part of the vocabulary.",
  ["pkg/asyncapi/schema.go","pkg/asyncapi/v2/schema.go","pkg/asyncapi/v3/schema.go","pkg/asyncapi/v3/server.go","pkg/asyncapi/v3/message_example.go","pkg/asyncapi/v2/specification.go","pkg/asyncapi/v3/specification.go"],[("Schema","pkg/asyncapi/v3/schema.go: Schema"),("Validations","pkg/asyncapi/schema.go")],["returned error","generated code"])
for d in P: print(json.dumps(d))
