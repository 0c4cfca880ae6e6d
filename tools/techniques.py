TECH = {
 'C01': ('TLA+/TLC: all middleware programs enumerated, replayed on generated controllers', 'Every chain of up to 3 middlewares over 15 behaviours, in 4 directions, v2 and v3, with the complete log of what user code sees.'),
 'C02': ('TLA+/TLC: outcomes and histories enumerated, replayed on generated controllers', 'Every outcome and every error handler of a message, and every history of a bounded reception with acks, v2 and v3.'),
 'C03': ('TLA+/TLC: state graph of the controller, every transition replayed on generated controllers', 'Every transition of a bounded model of transmissions, receptions and cancellations, on v2 and v3, app and user.'),
 'C04': ('TLA+/TLC: state graph of the controller, every transition replayed on generated controllers', 'Every transition of the subscription life cycle over 4 channels with broker failures, on v2 and v3, app and user.'),
 'C05': ('TLA+/TLC: protocol specification, refinement by a model of the implementation, walks replayed and recorded traces of concurrent runs checked against it', 'Every interleaving of 2 transmitters, a receiver and 2 cancelers in the model; every transition replayed on the real subscription; recorded traces of stress runs with the race detector and injected yields accepted by the trace specification.'),
 'C06': ('TLA+/TLC: reply histories and middleware programs enumerated, replayed on generated controllers', 'Every history of up to 3 replies of 6 kinds (own, other, stale, undecodable, ...) with every failing step and middleware outcome, on v2 and v3, and concurrent pairs of requests.'),
 'C07': ('TLA+/TLC: termination causes enumerated (liveness checked on the model), replayed on generated controllers with leak detection', 'Every cause of termination at every point of every history, with the goroutines and subscriptions left behind counted.'),
 'C08': ('TLA+/TLC: contexts expected at every step of the scenarios of the other specifications, compared on generated controllers', 'Contexts seen by middlewares, handlers, error handlers and brokers in the scenarios of Publish, Controller and Request.'),
 'C09': ('TLA+/TLC: message shapes and call sequences enumerated, replayed on code generated for each shape', 'Every shape of correlation ID location up to depth 3 and every sequence of 2 publications.'),
 'C10': ('TLA+/TLC: channel addresses, values of parameters and reply address locations enumerated, replayed on code generated for each', 'Every address of up to 3 tokens over 5 literals and 2 parameters, with every pair of users of the channel following a script, on v2 and v3; every location of reply address up to depth 3.'),
 'C15': ('TLA+/TLC: state graph of the versioning wrapper, every transition replayed on the real wrapper', 'Every transition of bounded models (versions, default version, two channels, flood) and every publication.'),
 'C16': ('TLA+/TLC: protocol specification, refinement by a model of the implementation, walks replayed and recorded traces of concurrent runs checked against it', 'Every interleaving of the bounded model; every transition replayed on the real wrapper; recorded traces of stress runs with the race detector and injected yields accepted by the trace specification.'),
 'C24': ('TLA+/TLC: chains around the provided middlewares and every log entry enumerated, replayed on the real ones', 'Every chain of up to 3 steps over the provided middlewares and 8 user programs, panics included, in 4 directions, v2 and v3; every log entry of up to 2 pieces of information over 12 keys; concurrent entries with the race detector.'),
 'C18': ('TLA+/TLC: documents and the normal form of their schemas enumerated, replayed on code generated for each', 'Every composed schema of a bounded grammar (allOf, anyOf, oneOf, references, nesting, shared schemas) every message with up to two traits, and every message with up to two alternatives (oneOf, nested, by reference), with every property probed on the wire, v2 and v3.'),
 'C17': ('TLA+/TLC: references enumerated with the resolution expected, documents generated for each and behaviours replayed', 'Every part of a document replaced by a reference (direct, through other references, to another file), alone and by pairs, probed on the wire; the scenarios of requests, publications and addresses on documents made of references only; every broken reference of 10 kinds in 33 places, directly or behind other references, refused without writing anything.'),
 'C14': ('TLA+/TLC: constraints and the values around their limits enumerated, validated on generated code', 'Every combination of up to 2 limits (integer or not, null, negative, up to 1e15) on 4 numeric types, lengths, enumerations and constants with special characters, unique items; required or optional; inline, by reference(s), nested, composed, in headers; forced pointers or not; every value around the limits, v2 and v3.'),
 'C13': ('TLA+/TLC: object schemas and the JSON contents around them enumerated, replayed on code generated for each', 'Every object schema of a grammar of 10 sets of properties (converted names, special characters, dates, any value, references, nesting, x-omitempty), 20 kinds of additional properties, 8 places in the payload and 4 key conversions, with every additional key of a list that is close to the declared ones, received or set before sending, v2 and v3.'),
 'C20': ('TLA+/TLC: commands and the type shapes expected under every combination of options enumerated, replayed on the real tool and on generated code', 'Every command with up to 2 unusual fields out of 11 (versions, files, contents, parts, naming, keys, targets, dependencies, layout, package), with what it writes compared; every combination of options over 14 sets of properties, with Go types compared by reflection and probed on the wire; every place of a custom type and of a conflicting import.'),
 'C19': ('TLA+/TLC: presentations of a document and histories of generations enumerated, replayed on the real tool and library', 'Every history of 2 generations (and many of 3) in a process over 2 documents and 9 sets of options, failing ones included, each compared with the same generation alone; every presentation with up to 2 unusual fields out of 9 (order of keys, format, names, dependencies, runs) of documents of all the other specifications.'),
 'C12': ('TLA+/TLC: message types and the wire contents around them enumerated, replayed on code generated for each', 'Every payload and header of 16 types (dates, numbers of both sizes, booleans, any value, arrays, objects), inline, by reference or by a chain of references, required or not, alone or all together, with forced pointers or ignored formats or not; every bit pattern of a family of big-endian numbers, every wrong size, every kind of undecodable content, v2 and v3.'),
 'C11': ('TLA+/TLC: documents, the API of both sides and the behaviours of both sides connected enumerated, replayed on code generated for each', 'Every document with up to 3 deviations (thorough: 4) from the plainest one, over 3 operations or 2 channels, both actions, shared channels and messages, replies, parameters; generated as a whole, in several files or one side per package; with the exported API compared and every transition of both sides connected to a broker replayed.'),
 'C22': ('TLA+/TLC: state graph of NATS controllers on a server, every transition replayed on the real ones against a scripted server; recorded traces of concurrent runs checked against a protocol specification', 'Every transition of bounded models (7 kinds of messages published, 4 received, 3 subscriptions of 2 controllers on 2 channels, 4 sets of queue groups, cancellations and closings), over the real protocol on the loopback; traces of stress runs (race detector, instrumented schedules) with floods and concurrent cancellations.'),
 'C21': ('TLA+/TLC: subjects, set-ups and state graph of a JetStream controller on a stream, every case and transition replayed on the real one against a scripted server; recorded traces of concurrent runs checked against a protocol specification', 'Every pattern and subject of up to 3 tokens (thorough: 4); every combination of options and of what exists on the server; every transition of bounded models (3 subscriptions over 4 sets of patterns, 2 messages, acks, nacks, redeliveries); traces of stress runs (race detector, instrumented schedules) with floods, concurrent subscriptions and cancellations, and what is left sent again.'),
 'C23': ('TLA+/TLC: state graphs of Kafka controllers on a broker with consumer groups, walks over them replayed on the real ones against a scripted broker that speaks the Kafka protocol; options and faults enumerated and replayed', 'Every transition of bounded models (2 subscriptions of 2 controllers, 5 sets of groups and commit modes, one topic, 7 kinds of messages), random walks over larger ones (2 topics, more messages, rebalances of groups, blocks of 50 messages that overflow the queues); every plan of missing, refused and slow topics and of errors when producing, fetching and committing; pairs of 10 sets of options over 4 kinds of brokers (plain, TLS, authentication, dead).'),
 'C25': ('TLA+/TLC: remarks on every object of a document enumerated, with the meaning they keep, documents generated and their declarations compared', 'Every field without effect and every kind of text (13) on each of 25 (v2) or 31 (v3) objects of a document that has one of each, the same text everywhere, everything everywhere, and random sets of up to 12 remarks, in JSON and YAML.'),
}
