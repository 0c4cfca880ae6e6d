import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
G2='pkg/codegen/generators/v2/templates/'; G3='pkg/codegen/generators/v3/templates/'
CT=[G2+'controller.tmpl',G3+'controller.tmpl']
MT=[G2+'message.tmpl',G3+'message.tmpl']
LIVE="the checked-in tests need live brokers for this, or replay a few messages through checked-in generated code, so the generator itself is never exercised"
p('C01','Every message goes through all middlewares once, in order',
 "Whatever the middlewares of a generated controller do (call next zero, one or several times, fail before or after, change the message or the context), each message received, published or awaited as a reply enters every middleware at most once, in registration order, and the final step (the user's handler, or the broker publication) runs at most once, after all of them. A middleware that returns without error and without calling next is continued automatically, and an error from any step stops the steps not yet started and is what the middleware that called next gets. The context and the message as changed by a middleware are what every later step sees.",
 ['programs','inputs'],'every list of middlewares and every behaviour of each, in the three directions (reception, publication, wait for a reply), asyncapi v2 and v3',
 "tests use one or two well-behaved middlewares; the ways in which middlewares can compose is a space of programs; "+LIVE,
 CT+['pkg/extensions/middleware.go'],[('recursive wrapping of middlewares with a called guard',G3+'controller.tmpl: wrapMiddlewares')],['middlewares, handlers and the broker given to a generated controller'])
p('C02','Messages are acked after success only, nacked after failure, never both',
 "Each message handed to a subscribed handler is positively acknowledged to the broker only once the handler has returned without error; if a middleware, the decoding or the handler reports an error, the error handler is called exactly once with the channel, the message and that error, and the message is then negatively acknowledged unless the error handler already settled it. No message is ever settled more than once, even if it is settled again by the error handler or by the controller. A failing message changes neither the processing nor the settlement of the other ones.",
 ['inputs','histories','fault_sequences'],'every sequence of messages with every outcome (middleware error, undecodable payload, handler error, success, error handler that acks, nacks or both), asyncapi v2 and v3',
 "the order between the handler's return and the acknowledgement, and at-most-once settlement, must hold for every outcome and history; tests sample a couple of outcomes with checked-in generated code",
 CT+['pkg/extensions/broker.go','pkg/extensions/errorhandler.go','pkg/extensions/errorhandlers/logging.go'],[('Ack after the handler, errorHandler then Nak on error',G3+'controller.tmpl: listenTo...NextMessage'),('acked flag','pkg/extensions/broker.go: AcknowledgeableBrokerMessage')],['acknowledgement functions of the messages given by the broker, error handler, handlers'])
p('C03','Received messages are handled exactly once, in order, unaltered',
 "Every message that a broker transmits on a live subscription is handed exactly once to the handler subscribed on that channel and to no other, in transmission order, one at a time, with the content transmitted, however large the backlog and however slow or failing the handlers are. Messages transmitted before the cancellation of the subscription are still handled, messages transmitted after it never are, and a slow channel never delays another one. The transmitting side is blocked, never dropped, when the backlog is full.",
 ['schedules','histories'],'every interleaving of transmissions, handlers, subscriptions and cancellations over several channels, backlogs below and above the queue capacity, asyncapi v2 and v3',
 "depends on goroutine schedules, on backlogs greater than the queue size and on cancellations at any point, tests send a few messages sequentially",
 CT+['pkg/extensions/broker.go','pkg/extensions/brokers/common.go'],[('one listening goroutine per subscription',G3+'controller.tmpl: SubscribeTo'),('bounded queue with blocking transmission','pkg/extensions/broker.go: TransmitReceivedMessage')],['handlers, transmitting side of the broker subscription'])
p('C04','Subscriptions follow the subscribe / unsubscribe / close calls exactly',
 "A controller holds at most one broker subscription per channel address: subscribing again without unsubscribing fails with the already-subscribed error and does not reach the broker, a broker failure is returned and leaves the channel free, unsubscribing cancels the broker subscription and frees the address, and is a no-op when not subscribed. Subscribing to all channels subscribes to exactly the parameterless channels of that side (failing on a nil subscriber), unsubscribing from all or closing cancels every remaining subscription, channels with parameters included, after which the controller can subscribe again. Creating a controller without a broker is an error.",
 ['histories','fault_sequences'],'every sequence of subscribe, unsubscribe, subscribe to all, unsubscribe from all and close calls over channels with and without parameters, with broker subscription failures at any point, asyncapi v2 and v3',
 "it is a property of call histories and broker failures; tests run subscribe then unsubscribe once",
 CT+['pkg/codegen/generators/v2/templates/subscriber.tmpl','pkg/codegen/generators/v3/templates/subscriber.tmpl'],[('subscriptions by address',G3+'controller.tmpl: SubscribeTo/UnsubscribeFrom/UnsubscribeFromAllChannels')],['calls to the broker, cancellation of broker subscriptions, returned errors'],
 [('subscriptions','broker subscriptions by channel address',G3+'controller.tmpl')])
p('C05','Canceling a broker subscription is safe at any time and cleans up once',
 "Whatever the interleaving of transmissions, reception and any number of cancellations of a broker subscription (from any copy of it), nothing panics, the broker clean up runs exactly once, and the messages channel is closed exactly once, after the clean up, still giving the messages accepted before. A cancellation returns when the clean up is complete or when its context is done, whichever comes first, and the clean up completes even if the context is done. Transmissions blocked on a full queue are released by the cancellation, and transmissions after it return without delivering.",
 ['schedules'],'every interleaving of transmitters, readers and cancellers (with live, expired or expiring contexts) on one subscription, with empty, partially filled and full queues',
 "a panic or a deadlock needs a given interleaving (a transmission racing with the close, two cancellations), that tests never force",
 ['pkg/extensions/broker.go'],[('cancellation handshake','pkg/extensions/broker.go: WaitForCancellationAsync, Cancel, TransmitReceivedMessage')],['the exported methods of the broker subscription'],
 [('messages, cancel, done','channels between the broker and the controller','pkg/extensions/broker.go')])
p('C06','A request returns the reply to that very request',
 "A request made through a generated controller opens its reply subscription before its message is published and returns the first reply that carries its correlation ID (the first reply of all if the messages have no correlation ID), as modified by the middlewares. Replies to other requests, undecodable messages and stale replies are acknowledged and ignored, without ending the request nor going through the middlewares. Concurrent requests on the same channels each get their own reply.",
 ['schedules','histories','inputs'],'every sequence and interleaving of matching, foreign, duplicated and undecodable replies over one or several concurrent requests; correlation ID in headers or payload; fixed or dynamic reply address; asyncapi v3 Request and v2 WaitFor',
 "needs foreign replies and concurrency; tests make a single request answered by a single reply, with a live broker",
 CT,[('subscribe, publish, then filter replies on the correlation ID',G3+'controller.tmpl: Request, waitFor...NextResponse')],['result of the request, broker calls, acknowledgements'])
p('C07','A request always terminates and leaves nothing behind',
 "A request returns as soon as its reply arrives, its context is done (context-canceled error), its reply subscription is closed by the broker (subscription-canceled error), or a step fails: subscription to the replies, publication, a middleware on the awaited reply (that very error, wrapped or not). In every case its reply subscription is canceled exactly once before it returns, no goroutine is left and the controller stays usable, and no failure makes it loop or block.",
 ['fault_sequences','schedules'],'every point where the request can fail or be interrupted: broker subscription, publication, middlewares, before, between and after foreign replies, asyncapi v3 Request and v2 WaitFor',
 "requires to inject failures at each point of the exchange, tests only exercise the successful one",
 CT,[('deferred cancellation, select on the context',G3+'controller.tmpl: Request, waitFor...NextResponse')],['result of the request, broker subscriptions, goroutines'])
p('C08','User code always gets the complete execution context',
 "Middlewares, handlers, error handlers and the broker get from a generated controller a context that carries the version of the specification, the provider (app or user), the address of the channel with parameters replaced, the direction (publication, reception or wait-for) and, once there is one, the broker message as received or about to be sent; handlers of received messages, publications and awaited replies moreover get the correlation ID whenever the message has one. These values are those of the message being processed, never of another one. Values set by the caller in the context of a subscription, a publication or a request are kept for the broker, and for the middlewares of the publication.",
 ['inputs','histories'],'every operation (send, subscribe, request, reply) on the app and the user side, with and without parameters and correlation ID, for any history of messages, asyncapi v2 and v3',
 "tests check a few values on one message; the context is rebuilt for each step of each operation by generated code",
 CT+['pkg/extensions/context.go'],[('context values set in each operation',G3+'controller.tmpl: add...ContextValues')],['context received by middlewares, handlers, error handler and broker'])
p('C09','Published messages carry the right correlation ID, at the specified place',
 "A message whose specification has a correlation ID is always published with a non empty one, located where the specification says (any depth of the headers or of the payload): the one set by the caller if any, otherwise a fresh one that no other message has. A reply carries the correlation ID of the message it answers to, and sending a reply that has none is refused without publishing. Messages without correlation ID in their specification are published untouched.",
 ['inputs','programs','histories'],'every location (header or payload, nested, required or not, declared in the schema or not), empty or set identifiers, any number of publications, asyncapi v2 and v3',
 "quantifies over specifications and identifiers; tests use one location through checked-in code",
 MT+CT+['pkg/asyncapi/v2/message.go','pkg/asyncapi/v3/message.go','pkg/asyncapi/v3/correlation_id.go'],[('generated accessors of the correlation ID',G3+'message.tmpl: CorrelationID, SetCorrelationID, SetAsResponseFrom')],['wire content of the published messages'])
p('C10','Channel addresses are the specified ones with parameters substituted',
 "Every publication, subscription, unsubscription and request uses exactly the address of the channel in the specification, where each parameter is replaced by the value given by the caller, wherever and in whatever order parameters appear and whatever the other characters of the address. Distinct parameter values give independent subscriptions. A reply whose address comes from the message is published to, or awaited on, the address found at the specified location, and is refused when it is empty.",
 ['inputs','programs'],'every address template (several parameters, adjacent, repeated, first, last, special characters such as % or quotes) and parameter values, asyncapi v2 and v3',
 "quantifies over templates and values; the tests have two templates",
 [G2+'helpers.go',G3+'helpers.go',G2+'parameter.tmpl']+CT+['pkg/asyncapi/v3/operation_reply_address.go'],[('generated format of the address',G3+'helpers.go: GenerateChannelAddr')],['channel given to the broker'])
p('C11','App and user controllers are generated as exact duals',
 "For every operation of the specification the controller of one side can send the message and the controller of the other side can receive it, with the direction given by the specification (asyncapi v2: publish is received by the app; v3: receive is received by the app), and neither has any other operation; replies are sent by the receiving side and awaited by the sending one. The generated code of any supported specification compiles, and what is sent by one side is received by the other side, on the same channel and with the same content. Generating only some parts gives the same API for these parts.",
 ['programs','configurations'],'every set of channels and operations (any mix of actions, shared channels, shared messages, replies, parameters) and every set of generated parts',
 "quantifies over specifications; tests compile a fixed set of files generated beforehand",
 CT+['pkg/codegen/generators/v2/controller.go','pkg/codegen/generators/v3/controller.go','pkg/codegen/generators/v3/generator.go','pkg/codegen/generators/v2/generator.go','pkg/codegen/generators/v3/subscriber.go','pkg/codegen/generators/v2/subscriber.go'],[('operations sorted by side and action','pkg/codegen/generators/v3/controller.go')],['exported API of the generated code, messages exchanged through a broker'])
p('C12','Messages survive the wire: decoding what was encoded gives it back',
 "For every supported payload and header type, a message sent by a generated controller and received by the generated counterpart is equal to the original one, including absent optional fields, empty values, nested objects, arrays, dates and extreme values. The wire format is the specified one: raw bytes for string payloads, fixed size big-endian binary for numeric payloads, JSON for objects and arrays, one entry per set header under the name it has in the specification. A message that can not be decoded is reported as an error, never as a panic nor as a silently different message.",
 ['inputs','programs'],'every message shape (payload type and format, header types, required or optional, arrays, nested and referenced schemas) and every value, valid or malformed, asyncapi v2 and v3',
 "quantifies over types and values; tests send a few strings",
 MT+[G2+'marshaling',G3+'marshaling'],[('generated conversions to and from broker messages',G3+'message.tmpl: brokerMessageTo..., toBrokerMessage')],['wire content given to the broker, messages given to the handlers'])
p('C13','JSON content has exactly the properties of the schema',
 "Objects are encoded with exactly the keys of the schema (converted with the chosen strategy, and no other), required properties are always present, optional ones are present exactly when set (an empty optional array counts as not set), and additional properties are encoded at the same level next to the declared ones whatever their names and types. Decoding is the inverse: any JSON object valid for the schema is decoded without loss into the same object, additional properties never shadow declared ones, and encoding always produces valid JSON.",
 ['inputs','programs','configurations'],'every object schema (required and optional properties, nesting, arrays, additional properties with or without schema, x-omitempty), key conversion strategy and value, asyncapi v2 and v3',
 "quantifies over schemas and contents, in particular over keys of additional properties that tests do not try",
 [G2+'marshaling',G3+'marshaling',G2+'schema_definition.tmpl',G3+'schema_definition.tmpl','pkg/codegen/generators/helpers.go','pkg/utils/template'],[('json tags and generated MarshalJSON/UnmarshalJSON',G3+'marshaling')],['wire content given to the broker, messages given to the handlers'])
p('C14','Validation tags accept exactly the values valid for the schema',
 "Running the go-playground validator on generated structures accepts the values that satisfy the constraints of the schema (required, length, range, exclusive range, string enumeration and constant, uniqueness of items) and rejects the ones that violate any of them, on required and optional properties alike, through references too. An absent optional property is always accepted, and an absent required one is rejected when its Go type can tell it (arrays, or forced pointers).",
 ['inputs','programs'],'every combination of these constraints on a property (required or optional, direct, nested, composed or by reference, in the payload or the headers, pointers forced or not) and every value around the limits, asyncapi v2 and v3',
 "quantifies over combinations of constraints and values; tests validate a couple of fields of one structure",
 ['pkg/codegen/generators/helpers.go','pkg/asyncapi/schema.go'],[('validate tags','pkg/codegen/generators/validations.go')],['result of the validator on generated structures'])
p('C15','Versioned messages reach exactly the subscriber of their version',
 "Behind the versioning wrapper, each received message is delivered to the subscription registered for the version found in its version header, or for the default version when it has none, and to no other, exactly once and in order, with its acknowledgement untouched; messages of unknown versions (or without version nor default) are dropped and disturb nothing. Every message published with a version in its context carries that version in the configured header, its other headers and payload unchanged.",
 ['schedules','histories','inputs'],'every interleaving of messages of any version (known, unknown, missing, empty, with a default version or not, custom header key) with subscriptions and cancellations of versions on several channels',
 "tests route two versions sequentially; losing, misrouting or blocking depends on the histories and schedules",
 ['pkg/extensions/versioning/wrapper.go','pkg/extensions/versioning/broker_subscription.go','pkg/extensions/versioning/version_subscription.go'],[('one broker listener dispatching on versions','pkg/extensions/versioning/broker_subscription.go: launchListener')],['subscriptions returned by the wrapper, messages given to the wrapped broker'],
 [('versionsChannels','subscriptions by version','pkg/extensions/versioning/broker_subscription.go')])
p('C16','Versioned subscriptions come and go without interfering nor deadlocking',
 "The versioning wrapper holds one broker subscription per channel, opened with the first version and canceled with the last one, whatever the order and concurrency of subscriptions and cancellations. Subscribing a version twice on a channel fails with the already-subscribed error, subscribing without version fails with the no-version error, and a broker failure is returned and leaves nothing behind; a canceled version, or a channel whose versions were all canceled, can be subscribed again. No interleaving of subscriptions, cancellations and received messages, of known versions or not, blocks the wrapper.",
 ['schedules','histories','fault_sequences'],'every interleaving of subscriptions and cancellations of several versions on several channels with messages being received and broker failures',
 "deadlocks and leaks between the lock of the channels, the lock of the versions and the cancellation handshake need given interleavings",
 ['pkg/extensions/versioning/wrapper.go','pkg/extensions/versioning/broker_subscription.go','pkg/extensions/versioning/version_subscription.go'],[('channels and versions locks','pkg/extensions/versioning: Subscribe, removeVersionListener')],['calls to the wrapped broker, returned errors, goroutines'],
 [('channels','broker subscriptions by channel','pkg/extensions/versioning/wrapper.go')])
p('C17','References are transparent, and broken ones are reported',
 "Replacing any part of a specification by a reference to the same definition elsewhere (message, schema, headers, payload, parameter, channel, trait; in the components, in a channel, behind other references or in a dependency file) does not change the behaviour of the generated code. A reference that targets nothing, an unknown kind of object, or a file that is not given makes the generation fail with an error, without panicking and without writing any output.",
 ['programs','inputs'],'every kind of referencing and referenced object, chains of references, dependency files, and every kind of dangling reference, asyncapi v2 and v3',
 "quantifies over documents; tests have a handful of documents and no dangling references",
 ['pkg/asyncapi/v2/specification.go','pkg/asyncapi/v3/specification.go','pkg/asyncapi/v2/schema.go','pkg/asyncapi/v3/schema.go','pkg/asyncapi/v2/message.go','pkg/asyncapi/v3/message.go','pkg/asyncapi/v3/channel.go','pkg/codegen/codegen.go'],[('resolution of references','pkg/asyncapi/v3/specification.go: reference'),('Follow','pkg/asyncapi/v3')],['wire behaviour of the generated code, exit status of the generator'])
p('C18','Composition (allOf, anyOf, oneOf, traits) gives the union of properties',
 "An object schema composed with allOf, anyOf or oneOf, at any depth and through any references, has exactly the union of its own properties and of those of all the composed schemas, a property declared by the object itself taking precedence, and is required where any of them requires it at its level. A message with traits has the headers, payload and correlation ID of its traits in addition to its own, its own definitions taking precedence; a message that is one of several messages (oneOf) has likewise the headers, payload and correlation ID of each of them, wherever they are defined; and messages that share a trait or a schema do not affect each other.",
 ['programs'],'every nesting of compositions, references and traits over up to a few schemas, whatever the order in which they are declared or visited, asyncapi v2 and v3',
 "losing a property depends on the random order of map iterations and on the nesting; tests have two compositions",
 ['pkg/asyncapi/v2/schema.go','pkg/asyncapi/v3/schema.go','pkg/asyncapi/v2/message.go','pkg/asyncapi/v3/message.go','pkg/asyncapi/v3/message_trait.go'],[('merge of schemas','pkg/asyncapi/v3/schema.go: MergeWith'),('application of traits','pkg/asyncapi/v3/message.go: ApplyTrait')],['properties of the generated structures'])
p('C19','Generation is a pure function of the specification and the options',
 "Generating twice from the same specification and options gives the same bytes, and neither the order of the keys of the document, nor its format (YAML or JSON), nor its file name changes the generated code. Generation never modifies its inputs, and a failing generation leaves the output file as it was.",
 ['inputs','configurations','schedules'],'every specification of the corpus, any permutation of the keys of its maps, both formats, any number of runs (maps are iterated in a random order)',
 "needs repeated runs and permutations, as failures are random; tests use code generated once",
 ['pkg/codegen/codegen.go','pkg/asyncapi/parser','pkg/utils/map.go','pkg/asyncapi/v2','pkg/asyncapi/v3','pkg/codegen/generators'],[('ordered iterations in templates and helpers','pkg/utils/map.go, pkg/codegen/generators')],['bytes written by the generator'])
p('C20','The generator honours its options, and rejects what it can not handle',
 "Supported versions (2.0.0 to 2.6.0 and 3.0.0) are accepted in YAML and JSON and any other version, format, generation part, naming scheme or key conversion is refused with an error, a non-zero status and no output. The output only contains the requested parts under the requested package name; key conversion changes the wire keys and nothing else, the naming scheme changes the Go names and not the wire, forced pointers make every non-array field a pointer, ignoring string formats makes dates plain strings, and the x-go-type, x-go-type-import and x-omitempty extensions are applied.",
 ['configurations','inputs'],'every combination of options, versions and formats',
 "quantifies over combinations of options; tests have one file per option, generated beforehand",
 ['cmd/asyncapi-codegen/config.go','cmd/asyncapi-codegen/main.go','pkg/codegen/codegen.go','pkg/codegen/options','pkg/asyncapi/versions.go','pkg/asyncapi/parser','pkg/utils/template'],[('flags to options','cmd/asyncapi-codegen/config.go: ToCodegenOptions')],['exit status, output file, generated API and wire keys'])
p('C21','JetStream messages go to the matching subscription and are acked by it',
 "A JetStream controller gives each message to one of its subscriptions whose channel matches the subject under the NATS wildcard rules (* is one token, > is one or more last tokens), and to no other one, once and in order, with its headers and payload; messages that match no subscription are acknowledged and dropped. A message is acked or nacked (with the configured delay) exactly when the user settles it, a failure or cancellation leaving it unsettled so that the server delivers it again. Subscriptions and cancellations can happen at any time, including while messages are being received and several times on the same channel: nothing panics nor blocks, and consumption stops with the last one.",
 ['inputs','schedules','histories'],'every pattern and subject over a small alphabet, every interleaving of messages, subscriptions and cancellations over several channels',
 "tests need a live server and only cover a few patterns; races between consumption and cancellation need given interleavings",
 ['pkg/extensions/brokers/natsjetstream/natsjetstream.go'],[('dispatch of consumed messages','pkg/extensions/brokers/natsjetstream/natsjetstream.go: ConsumeMessage, MatchSubjectSubscription')],['protocol exchanged with a NATS server, subscriptions'])
p('C22','NATS delivers what is published, unaltered, and stops when canceled',
 "What is published through the NATS controller arrives on the server with the same subject, headers and payload, before the publication returns; what the server delivers on a subscription is given to the user with the same headers and payload, in order, once. Subscriptions use the configured queue group, several can be opened and canceled independently at any time, cancellation removes the subscription from the server, messages received before it can still be read, and those that arrive meanwhile are either read in order or dropped, without blocking nor panicking.",
 ['inputs','schedules','histories'],'every header set and payload (empty, binary, several headers), every interleaving of deliveries, subscriptions and cancellations',
 "tests need a live server and send a couple of text messages",
 ['pkg/extensions/brokers/nats/nats.go','pkg/extensions/broker.go'],[('conversion of messages, drain on cancellation','pkg/extensions/brokers/nats/nats.go')],['protocol exchanged with a NATS server, subscriptions'])
p('C23','Kafka offsets are committed as configured and no message is lost',
 "Through the Kafka controller, messages are published to the topic of the channel with the same headers and payload (the topic being created, and the publication retried, when it does not exist): exactly once when the publication succeeds, not at all when it fails. They are read in order with the same headers and payload, from the first one, or from the offset committed by the group, and reading continues after errors of the broker. With manual commit the offset of a message is committed when, and only when, the user settles it (ack or nack), whereas with automatic commit settling does nothing; settling never blocks, even after the cancellation. Options given to a controller (group, partition, TLS, SASL, maximum size) apply to this controller only, canceling a subscription closes its reader (and leaves its group), and no connection outlives what it was used for.",
 ['inputs','histories','configurations','fault_sequences'],'every header set and payload, every settlement of a sequence of messages, combinations of options over several controllers, missing topics and broker errors',
 "tests need a live broker and only cover a few messages and options",
 ['pkg/extensions/brokers/kafka/kafka.go'],[('messages handlers with automatic and manual commit','pkg/extensions/brokers/kafka/kafka.go')],['protocol exchanged with a Kafka broker, subscriptions'])
p('C24','Provided middlewares, error handlers and loggers never disturb messages',
 "With the recovery middleware, a panic of any later middleware or of the handler, on any message, is logged and never reaches the caller nor stops the reception of the next messages. The logging middleware and error handler and the intercepter let messages and errors go through unchanged, logging or transmitting each message exactly once, in reception and in publication. The provided loggers print one well-formed entry per call with the level, the message, the values of the context and the additional information, whatever these contain.",
 ['inputs','histories','programs'],'every position in the middleware chain, every panicking step, every log entry (arbitrary keys with dots, conflicts, values), asyncapi v2 and v3',
 "tests do not cover panics at each step nor arbitrary log keys",
 ['pkg/extensions/middlewares/recovery.go','pkg/extensions/middlewares/logging.go','pkg/extensions/middlewares/intercepter.go','pkg/extensions/errorhandlers/logging.go','pkg/extensions/loggers/common.go','pkg/extensions/loggers/ecs.go','pkg/extensions/loggers/text.go'],[('deferred recover','pkg/extensions/middlewares/recovery.go')],['log entries, messages given to handlers and broker'])
p('C25','What a document says beside its meaning never changes the generated code',
 "Titles, summaries, descriptions (whatever their content: several lines, code, comment delimiters, template actions, quotes, any character), examples, default values, tags, external documentation, servers, security, bindings, constraints that the generator does not support, and unknown extensions, can be added to any object of a document: it is still accepted, and the code that is generated compiles and is the same, comments aside. The version of the document, whatever its characters, is the value of the AsyncAPIVersion constant and changes nothing else.",
 ['inputs'],'every documented or decorated object of a document, with every kind of text and every field that has no effect, alone and together, asyncapi v2 and v3',
 "quantifies over documents and texts; tests only have short texts without special characters",
 ['pkg/asyncapi/v2','pkg/asyncapi/v3','pkg/asyncapi/schema.go','pkg/utils/template/helpers.go','pkg/codegen/generators/v2/templates','pkg/codegen/generators/v3/templates'],[('comments of the generated code','pkg/utils/template/helpers.go: MultiLineComment'),('fields that are read and not used','pkg/asyncapi/v3/schema.go, pkg/asyncapi/schema.go')],['exit status of the generator, declarations of the generated code'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import os
for x in P:
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('missing',x['id'],f)
