prop("P01", "Configured authentication verifiers fail closed",
     "A Basic, JWT or combined auth verifier reports success only for credentials its provider accepts: a matching htpasswd entry, or a token whose signature validates against a key of the configured JWKS and whose issuer and audience satisfy the provider's settings. A missing, malformed or unverifiable credential, a key-store or decoding failure, or a disagreement of combined verifiers always yields an error, never success. `and` needs both operands and `or` needs at least one.",
     ["inputs", "configurations"],
     "every Authorization header, token, key set, htpasswd file, issuer/audience setting and nesting of And/Or verifiers",
     "Tests try a handful of tokens and header shapes; acceptance must be excluded for every other header, claim set and provider combination.",
     ["src/core/auth/basic.rs", "src/core/auth/jwt/jwt_verify.rs", "src/core/auth/verify.rs", "src/core/auth/verification.rs", "src/core/auth/jwt/jwks.rs", "src/core/blueprint/auth.rs"],
     [("Verify::verify", "src/core/auth/*"), ("JwtVerifier::validate_claims / is_issuer_valid / validate_aud", "src/core/auth/jwt"), ("Verification algebra", "src/core/auth/verification.rs")],
     how="complete decision tables of the verifiers, the claim predicates, the verification algebra (and/or/from_result) and the request-level auth context; success rows are enumerated exactly.")

prop("P09", "Upstream requests merge in a loader only when they are the same request",
     "Two requests given to one data loader are the same key when their URL, body and every opted-in header agree, and equal keys hash alike. A difference in any of these keeps them apart (up to hash collisions), while headers not opted into the identity are ignored. Converting a request with a buffered body to its loader key, cloning the key, and converting it back loses no part of the request or of the key.",
     ["inputs"], "every pair of HTTP requests and every set of opted-in header names",
     "Tests compare a few hand-picked pairs; identity must hold for all URLs, bodies and header sets because a wrong merge leaks one user's response to another.",
     ["src/core/http/data_loader_request.rs"],
     [("PartialEq/Hash of the loader key", "src/core/http/data_loader_request.rs"), ("to_request", "src/core/http/data_loader_request.rs")],
     how="decision tables of eq, hash (as the set of contributions to the hasher), construction, deref and clone of the loader key.")

prop("P10", "The data loader answers every caller with the value of its own key",
     "Every caller of the batching loader receives the value loaded for its own keys or the loader's error: no key is dropped, answered twice from a stale value, or answered with another key's value. Batches are dispatched once at the size limit or after the delay, caching is only consulted when enabled for the loader, and clearing or disabling it makes later loads go to the source. A request-scoped deduplicated computation runs once per key, every waiter sees its outcome, and a cancelled leader never leaves waiters hanging.",
     ["inputs", "schedules", "histories"],
     "every set of keys, every interleaving of callers, loader results with missing keys or errors, cache enabled or disabled globally or per key type",
     "Batch boundaries, cancellation and interleavings are schedule-dependent; tests run a few fixed schedules.",
     ["src/core/data_loader/data_loader.rs", "src/core/data_loader/dedupe.rs", "src/core/data_loader/cache.rs", "src/core/data_loader/storage.rs", "src/core/data_loader/factory.rs", "src/core/http/data_loader.rs"],
     [("DataLoader::load_many / do_load / immediate_load", "src/core/data_loader/data_loader.rs"), ("Dedupe", "src/core/data_loader/dedupe.rs"), ("cache storages", "src/core/data_loader/cache.rs"), ("HttpDataLoader::load", "src/core/http/data_loader.rs")],
     how="decision tables with effect tracking (locks, sends, spawns, cache operations) of the loader, its request queue, the cache factories, the dedupe cell and the HTTP batch loader.",
     limits="Effects inside loops are existential: a loop that skips one of its required sends on some iteration but not on others is only seen when the skipping path has its own row.")

prop("P11", "The in-memory cache returns only live values stored under the key",
     "A cache read returns a value only when one was stored under exactly that key and its time-to-live has not elapsed, and a write makes the value visible under that key only, for the requested duration. The hit rate counts every lookup once: a hit as a hit and a miss as a miss.",
     ["inputs", "histories"], "every key, value, time-to-live and history of reads and writes",
     "Tests store and read a few keys; the guarantee quantifies over all histories.",
     ["src/core/cache/cache.rs"] if os.path.exists("/repo/src/core/cache/cache.rs") else ["src/core/cache/mod.rs"],
     [("InMemoryCache", "src/core/cache")],
     how="decision tables of get, set, insert, hit_rate and construction.")

prop("P20", "REST endpoints match exactly their declared paths, methods and query parameters",
     "A REST request is routed to an endpoint only when its method equals the declared one, its path has exactly the declared segments with literals equal and parameters convertible to their declared types, and each declared query parameter that is present converts to its declared type. The GraphQL variables it runs with are exactly the path and (present) query parameters under their variable names, plus the request body under the declared body variable. Endpoint definitions that mention undeclared or non-scalar variables, or whose operations do not validate against the schema, are rejected.",
     ["inputs", "configurations"], "every endpoint document, HTTP method, path, query string and request body",
     "Tests match a few URLs against a few patterns; routing must be exact for every path, including shorter and longer ones.",
     ["src/core/rest/path.rs", "src/core/rest/query_params.rs", "src/core/rest/endpoint.rs", "src/core/rest/endpoint_set.rs", "src/core/rest/partial_request.rs", "src/core/rest/typed_variables.rs", "src/core/rest/directive.rs", "src/core/rest/type_map.rs", "src/core/rest/operation.rs"],
     [("Path::parse/matches", "src/core/rest/path.rs"), ("Endpoint::try_new/matches", "src/core/rest/endpoint.rs"), ("EndpointSet::into_checked", "src/core/rest/endpoint_set.rs")],
     how="decision tables of parsing, matching, variable conversion, endpoint construction, set construction/checking and the conversion into a GraphQL request.")

prop("P22", "Custom scalars accept exactly the values of their definition",
     "A built-in custom scalar accepts a value exactly when it has the scalar's form (for example a valid e-mail, phone number, date, URL, JSON value, or an integer within the scalar's range), and an unknown or null value is treated as the scalar's definition says. Predefined scalar names are recognised and every other name is not.",
     ["inputs"], "every JSON value and every scalar name",
     "Tests validate a few literals per scalar; acceptance ranges over all values.",
     ["src/core/scalar.rs"], [("Scalar::validate / find / is_predefined", "src/core/scalar.rs")],
     how="decision tables of the predicate of every scalar, look-up and naming.")

prop("P26", "Type wrappers keep list nesting and nullability",
     "The wrapping type built from a GraphQL or protobuf type has exactly the same list nesting and the same nullability at each level, and converting it back or printing it restores that type. Its accessors (name, nullability, list test, element type, unwrapping and re-wrapping with a new name) answer for the level they are asked about.",
     ["inputs"], "every nesting of lists and non-null markers around every type name",
     "Tests convert a few shapes; the guarantee is for every nesting depth and every placement of the non-null markers.",
     ["src/core/wrapping_type.rs"], [("Type conversions and accessors", "src/core/wrapping_type.rs")],
     how="decision tables of the conversions in both directions, the printer, equality and the accessors.")

prop("P28", "Configuration merging is right-biased and loses nothing",
     "Merging two configurations keeps every entry of both: where both define the same optional setting the later one wins, a setting defined on one side only is kept, maps merge key by key and recursively, lists concatenate, sets union, and key/value lists are merged by key with the later value winning. Merging with an empty configuration on either side changes nothing.",
     ["inputs", "configurations"], "every pair of configuration values of every mergeable type",
     "Tests merge a few configs; every field of every mergeable type must be covered, because a dropped field silently discards a user's setting.",
     ["src/core/merge_right.rs", "src/core/config/directives/server.rs", "src/core/config/directives/upstream.rs", "src/core/config/headers.rs", "src/core/config/directives/telemetry.rs"],
     [("MergeRight impls", "src/core/merge_right.rs"), ("derived MergeRight", "src/core/config"), ("merge_key_value_vecs", "src/core/config/directives/server.rs")],
     how="decision tables of every MergeRight implementation, hand-written or derived (macro output included), with the element type's merge as the only opaque step.")

prop("P29", "Set server and upstream settings take effect, unset ones get their defaults",
     "A configured server, upstream, header, CORS, batch, proxy or TLS setting reaches the running configuration unchanged; an unset one takes its documented default (for example port 8000, host 127.0.0.1, introspection on, tracing, batching, response validation and federation off, 60 s timeouts). Settings that are not valid (an unresolvable host name, a malformed header, HTTP/2 without certificate and key, a script that was not loaded) are rejected rather than ignored.",
     ["configurations"], "every combination of set and unset settings",
     "Tests read a few settings; the guarantee covers each setting separately and all their combinations.",
     ["src/core/config/directives/server.rs", "src/core/config/directives/upstream.rs", "src/core/config/headers.rs", "src/core/blueprint/server.rs", "src/core/blueprint/upstream.rs"],
     [("getters", "src/core/config/directives"), ("Server::try_from / Upstream::try_from", "src/core/blueprint")],
     how="decision tables of every getter and of the construction of the runtime server and upstream settings, with error accumulation modelled.")

prop("P12", "The upstream HTTP cache returns and drops exactly what it is asked to",
     "A cached upstream response is returned, together with the policy it was stored with, only for the key it was stored under. Deleting a key removes that entry only, clearing removes them all, and storing hands the response back unchanged. The cache holds at most the requested number of entries (42 by default) and evicts the least recently used one.",
     ["inputs", "histories"], "every cache size, key, response, policy and history of reads, writes and deletions",
     "Tests store and delete one entry; a wrong key, a forgotten invalidation or a lost bound only shows in longer histories.",
     ["tailcall-http-cache/src/cache.rs"], [("HttpCacheManager", "tailcall-http-cache/src/cache.rs")],
     how="decision tables with effects (insert, invalidate, run_pending_tasks) of every operation of the cache manager and of its construction.")

prop("P23", "Union and interface values get only the type their data determines",
     "A value that already carries a string `__typename` is returned as it is and null stays null; otherwise its type is the string in the configured type field or, with keyed discrimination, the only key of the object, whose member becomes the value. A type outside the declared possible types, an object with zero or several keys, a missing or non-string type field and a value that is no object are errors, never a guess. Lists are discriminated element by element.",
     ["inputs", "configurations"], "every JSON value, set of possible types and discriminator setting",
     "Tests discriminate a few values; each malformed shape has to be rejected for every type set.",
     ["src/core/ir/discriminator.rs", "src/core/ir/discriminator/keyed_discriminator.rs", "src/core/ir/discriminator/type_field_discriminator.rs"],
     [("Discriminator::new / resolve_type", "src/core/ir/discriminator.rs"), ("resolve_and_set_type", "src/core/ir/discriminator"), ("TypedValue", "src/core/ir/discriminator.rs")],
     how="decision tables of construction, of both strategies and of reading and writing the type name.")

prop("P24", "Every JSON representation reads, builds and groups the same way",
     "For each supported JSON representation an accessor yields a value exactly when the value is of that kind, a key or path leads exactly to the member of that name (to the element of that index in arrays) or to nothing, and building an object, array or scalar keeps every entry. Grouping by a path puts each found object under the string or number at the end of the path, and mapping or visiting a nested list reaches every leaf exactly once.",
     ["inputs"], "every JSON value in each representation, every path and every mapper",
     "Tests try one representation with small values; batching answers depend on all of them agreeing for all values.",
     ["src/core/json/json_like.rs", "src/core/json/borrow.rs", "src/core/json/serde.rs", "src/core/json/graphql.rs", "src/core/json/json_like_list.rs", "src/core/json/mod.rs"],
     [("JsonLike / JsonObjectLike", "src/core/json"), ("gather_path_matches / group_by_key", "src/core/json/mod.rs"), ("JsonLikeList", "src/core/json/json_like_list.rs")],
     how="decision tables of every method of every implementation of the two traits and of the grouping and list helpers.")

prop("P25", "Templates keep literals verbatim and evaluate each expression at its path",
     "A template parses into its literal parts and its `{{a.b}}` expressions in order, and text that is no template is a single literal. Rendering emits each literal unchanged and for each expression the value at its path, or nothing when there is none; partial evaluation leaves unknown expressions in place. Printing a template writes each expression as `{{.a.b}}`, and it counts as constant exactly when it has no expression.",
     ["inputs"], "every template text and every value it is rendered with",
     "Tests render a few templates; URLs, headers and bodies of upstream requests are built from arbitrary ones.",
     ["src/core/mustache/parse.rs", "src/core/mustache/model.rs", "src/core/mustache/eval.rs"],
     [("Mustache::parse", "src/core/mustache/parse.rs"), ("Mustache accessors and Display", "src/core/mustache/model.rs"), ("PathStringEval / PathEval / PathGraphqlEval", "src/core/mustache/eval.rs")],
     how="decision tables of the parser combinators (each grammar rule as a term over nom's combinators), of the accessors and of the evaluators.")

prop("P27", "Merged upstream requests carry every request's method, query and body",
     "Each configured HTTP method is sent as that method, and a dynamic request keeps its request and batching value. Merging requests by query appends, for each further request, its query pairs named by the group-by key (all of them without a key) and adds nothing for a request without such pairs. Merging by body sends the JSON array of all request bodies, and leaves the request as it was when there is none.",
     ["inputs"], "every set of requests merged into one and every group-by key",
     "Tests merge two or three requests; a dropped or duplicated member silently answers a caller with null.",
     ["src/core/http/method.rs", "src/core/http/transformations/body_batching.rs", "src/core/http/transformations/query_batching.rs", "src/core/ir/request.rs"],
     [("Method::to_hyper", "src/core/http/method.rs"), ("BodyBatching / QueryBatching", "src/core/http/transformations"), ("DynamicRequest", "src/core/ir/request.rs")],
     how="decision tables of the two batching transformations (loops abstracted to a start and a step), the method conversion and the dynamic request.")

prop("P30", "Folds, transformers, directive codecs and counters compose losslessly",
     "Combined try-folds run on the same input in order, feed each state to the next and report the errors of all; piped transformers run in order, a conditional one leaves the value alone when disabled. A config directive is written and read under its lower-camel type name with all of its arguments. Counters never hand out the same number twice.",
     ["inputs", "histories"], "every composition of folds and transformers, every directive value and every sequence of counter calls",
     "Tests compose two or three steps; the config pipeline relies on the laws for every composition.",
     ["src/core/try_fold.rs", "src/core/transform.rs", "src/core/directive.rs", "src/core/counter.rs", "src/core/variance.rs", "src/core/lift.rs", "src/core/primitive.rs", "src/core/schema_extension.rs"],
     [("TryFold", "src/core/try_fold.rs"), ("Transform / TransformerOps", "src/core/transform.rs"), ("DirectiveCodec", "src/core/directive.rs"), ("Counter / AtomicCounter", "src/core/counter.rs")],
     how="decision tables of every combinator; closures that escape are summarised by their own behaviour, writes under a lock are effects.")

prop("P32", "Config formats, key-values and group-by settings keep their meaning",
     "A config format is recognised by its file extension or name without regard to case (json, yml/yaml, graphql/gql) and anything else is refused. Key-value settings and directives convert both ways with every entry kept, merging key-value lists keeps both lists in order, and group-by uses `id` when no path is given and the last path element as key unless one is set. Optional header switches are off unless set.",
     ["configurations"], "every file name, key-value list, directive and group-by setting",
     "Tests convert single entries; every entry of every list must survive.",
     ["src/core/config/source.rs", "src/core/config/key_values.rs", "src/core/config/group_by.rs", "src/core/config/headers.rs", "src/core/config/directive.rs", "src/core/config/url_query.rs", "src/core/config/cors.rs"],
     [("Source", "src/core/config/source.rs"), ("KeyValues", "src/core/config/key_values.rs"), ("GroupBy", "src/core/config/group_by.rs"), ("to_directive / to_const_directive", "src/core/config/directive.rs")],
     how="decision tables of every conversion, accessor and default.")

prop("P33", "Error reports and log output keep every part of an error",
     "Converting an error into a report keeps its message, description, location trace and every cause, and nested causes are not roots. The printed report shows each part that is present, each cause as an indented bullet, and colour codes only when colour is on. Log lines appear at the level set by TAILCALL_LOG_LEVEL, else TC_LOG_LEVEL, else info, and only for targets under the requested name.",
     ["inputs"], "every error value, nesting of causes and environment setting",
     "Tests print a few errors; a dropped cause or trace hides the reason of a failure from the user.",
     ["src/core/errata.rs", "src/core/tracing.rs", "src/core/worker/error.rs"],
     [("Errata construction, conversion, Display", "src/core/errata.rs"), ("log level and filters", "src/core/tracing.rs"), ("worker error conversions", "src/core/worker/error.rs")],
     how="decision tables of every conversion and of the printer (loops abstracted to a start and a step).")

prop("P34", "JSON schemas accept exactly their values and only sound subtypes",
     "A value validates against a schema exactly when it has its shape: kinds must match, an optional schema also accepts null, every array element must validate, and an object needs each non-optional field while further members are ignored. A schema is accepted for another one only if kinds agree, every field required there is present with an accepted type, and list and enum contents agree. Scalar names and protobuf messages map to the schema of the same structure (repeated fields to lists, optional ones to optional, map entries to any).",
     ["inputs"], "every schema, JSON value, pair of schemas and protobuf descriptor",
     "Tests validate a few literals; acceptance ranges over all values and all pairs of schemas.",
     ["src/core/json/json_schema.rs"],
     [("JsonSchema::validate / is_a", "src/core/json/json_schema.rs"), ("from_scalar_type and protobuf conversions", "src/core/json/json_schema.rs")],
     how="decision tables of validation, subtype check, printer and the conversions.",
     limits="Validation against an enum schema accepts every value (as the code documents no check there); the table pins that behaviour.")

prop("P35", "Configured templates are kept and constants are told apart by content",
     "A configured body, URL or header value is kept as the template it parses to, an absent body stays absent, and an invalid header name is reported and never dropped silently. Constants are equal exactly when their contents are, and their hash depends only on the content with every member and entry included. The GraphQL type guessed for a text or JSON value is the most specific one that fits.",
     ["inputs", "configurations"], "every configured template, header list, constant and sample value",
     "Tests parse a few settings; lost headers or colliding constants only show for particular values.",
     ["src/core/helpers/body.rs", "src/core/helpers/headers.rs", "src/core/helpers/url.rs", "src/core/helpers/value.rs", "src/core/helpers/gql_type.rs"],
     [("to_body / to_url / to_mustache_headers", "src/core/helpers"), ("HashableConstValue", "src/core/helpers/value.rs"), ("detect_gql_data_type / to_gql_type", "src/core/helpers/gql_type.rs")],
     how="decision tables of each helper.")

prop("P36", "Generated GraphQL names are built from the whole qualified name",
     "The name generated for an object or enum type is its namespaces and its base name joined by `__`, with dots in the base name replaced by `_`, and gets the generator's prefix unless the base name is a built-in or predefined scalar; methods are always prefixed, fields are camelCase and enum variants stay as they are. Its id is namespaces and name joined by dots. No part of a namespace other than an empty one is dropped.",
     ["inputs"], "every qualified name and every kind of entity",
     "Tests print a few names; two different protobuf types must never collapse into one GraphQL type.",
     ["src/core/generator/graphql_type.rs"],
     [("GraphQLType", "src/core/generator/graphql_type.rs"), ("Namespace", "src/core/generator/graphql_type.rs")],
     how="decision tables of parsing, of the id and of the printer.")

prop("P37", "The printed schema keeps every line except the built-in directives",
     "The published SDL consists of every line of the schema in order, except the definitions of `@include` and `@skip`, with leading tabs turned into two spaces, runs of blank lines collapsed into one and surrounding blank space removed.",
     ["inputs"], "every schema",
     "Tests print a few schemas; nothing may disappear from any schema a user downloads.",
     ["src/core/print_schema.rs"], [("print_schema", "src/core/print_schema.rs")],
     how="decision table of the printer: the loop over the lines is abstracted to its start and the complete set of its steps with their conditions.")

prop("P38", "Hashing and version information pass through unchanged",
     "The project's hasher feeds every byte it is given to the underlying hasher and returns that hasher's value. A version reports exactly the text it was made from and is a development version exactly when the text contains `dev`.",
     ["inputs"], "every byte sequence and version text",
     "Tests check the default version only; identity of cached requests rests on the hasher seeing all bytes.",
     ["tailcall-hasher/src/lib.rs", "tailcall-version/src/lib.rs"],
     [("TailcallHasher", "tailcall-hasher/src/lib.rs"), ("Version", "tailcall-version/src/lib.rs")],
     how="decision tables of both types.")

prop("P39", "Generated directive and input definitions mirror the config types",
     "Every property of a config type becomes an input value or directive argument with the type its JSON schema describes: required ones are non-null, arrays become lists, references keep the referenced name, descriptions are kept. Directive locations map one to one to their names, a directive is repeatable only when declared so, and the service document contains every definition added to it, in order.",
     ["inputs"], "every JSON schema of a config type",
     "Tests render a few schemas; a dropped argument makes valid configs look invalid in editors.",
     ["tailcall-typedefs-common/src/common.rs", "tailcall-typedefs-common/src/directive_definition.rs", "tailcall-typedefs-common/src/enum_definition.rs", "tailcall-typedefs-common/src/input_definition.rs", "tailcall-typedefs-common/src/scalar_definition.rs", "tailcall-typedefs-common/src/lib.rs"],
     [("into_*_definition", "tailcall-typedefs-common/src"), ("ServiceDocumentBuilder", "tailcall-typedefs-common/src/lib.rs")],
     how="decision tables of each conversion.")

prop("P41", "Each error reports its own message, cause and error extensions",
     "Every error variant prints its own wording with its own parts, exposes the error it wraps as its source, and converts from a wrapped error into the variant made for it. Conversions between error types keep every validation message, trace, description and gRPC status, and only gRPC errors add error extensions.",
     ["inputs"], "every variant of every error type of the core crate",
     "Tests assert a handful of messages; an error shown with another variant's text or without its cause sends the user to the wrong place.",
     ["src/core/ir/error.rs", "src/core/jit/error.rs", "src/core/blueprint/error.rs", "src/core/rest/error.rs", "src/core/worker/error.rs", "src/core/auth/error.rs", "src/core/cache/error.rs", "src/core/error.rs"],
     [("Display, source and From impls", "src/core/*/error.rs"), ("ErrorExtensions::extend", "src/core/ir/error.rs")],
     how="decision tables over all variants of every Display, source and From implementation (the derived ones too, read after macro expansion).")

prop("P42", "GraphQL requests, responses and errors use the standard JSON keys",
     "A request is read from query, operationName, variables and extensions, each optional and unknown keys ignored; a response writes data, and errors and extensions only when there are any. An error writes its message, and its locations, path and extensions when present; JWT claims, worker, reflection and cache records read back under the keys they are written with.",
     ["inputs"], "every value of every derived wire document",
     "Tests compare sample documents; a key read into the wrong field or dropped when empty only shows in values no sample holds.",
     ["src/core/jit/request.rs", "src/core/jit/response.rs", "src/core/jit/graphql_error.rs", "src/core/jit/model.rs", "src/core/async_graphql_hyper.rs", "src/core/auth/jwt/jwt_verify.rs", "src/core/worker/worker.rs", "src/core/proto_reader/fetch.rs"],
     [("Serialize/Deserialize impls", "src/core/jit"), ("JwtClaim", "src/core/auth/jwt/jwt_verify.rs"), ("Uri, Scheme", "src/core/worker/worker.rs")],
     how="the keys, fields, absence rules and unknown-key rules of every derived impl are read from its MIR and compared with the documented list; written keys must be read back into the same field.",
     tech="dataflow over the MIR of derived serde impls (key-to-field mapping) compared with a committed key list, plus a write/read agreement rule")

prop("P43", "Every configuration key sets its own field, and absent keys take their default",
     "Each configuration key is read into its own field, is written from that field, and may be left out exactly when its default stands in; unknown keys are rejected wherever the config format says so. The defaults of the config types are the documented ones, such as the routes /status and /graphql and the batch size 100.",
     ["inputs"], "every configuration document in every supported format",
     "Tests parse sample configs; a renamed or misrouted key silently turns a setting off in someone else's config.",
     ["src/core/config/directives/server.rs", "src/core/config/directives/upstream.rs", "src/core/config/directives/http.rs", "src/core/config/directives/link.rs", "src/core/config/config.rs", "src/core/config/cors.rs", "src/core/wrapping_type.rs", "src/cli/generator/config.rs"],
     [("Serialize/Deserialize impls", "src/core/config"), ("Default impls", "src/core/config/directives")],
     how="keys, fields, value types, stand-ins and skip conditions of every derived impl are read from its MIR and compared with the committed key list; written keys must be read back into the same field; decision tables of the Default impls.",
     tech="dataflow over the MIR of derived serde impls (key-to-field mapping) compared with a committed key list, a write/read agreement rule, and decision tables of the defaults")

prop("P44", "Requests and responses cross the JS worker boundary unchanged",
     "A worker sees the method, scheme, host, port, path, query, headers and body of the upstream request, and a worker response becomes a response with the same status, headers and body. A hook runs only when configured; without one, or when it returns nothing, the request or response goes on as it was, and a failure reported by the worker becomes an error.",
     ["inputs"], "every request and response passing a hook",
     "Tests cover one URL; ports, absent hosts, bodiless requests and hook failures are what gets lost.",
     ["src/core/worker/worker.rs", "src/core/worker_hooks.rs", "src/cli/javascript/codec.rs", "src/cli/javascript/runtime.rs"],
     [("WorkerRequest, WorkerResponse, Uri", "src/core/worker/worker.rs"), ("WorkerHooks", "src/core/worker_hooks.rs"), ("IntoJs, FromJs", "src/cli/javascript/codec.rs"), ("call, execute_inner", "src/cli/javascript/runtime.rs")],
     how="decision tables of each conversion and hook.")

prop("P02", "Protected data is resolved only for authenticated requests",
     "A field or type marked as protected is protected on every path to it: each resolver, constant value or plain value of such a field runs behind the authentication check, and a plan with any protected field counts as protected. A request that fails verification never gets a protected value, not even a constant or precomputed one; unprotected fields ask for no credentials.",
     ["inputs"], "every configuration and every operation plan",
     "Tests protect one field or one type; the combinations of nesting, constants, fragments and precomputed responses are what leaks.",
     ["src/core/blueprint/operators/protected.rs", "src/core/jit/transform/auth_planner.rs", "src/core/jit/transform/check_protected.rs", "src/core/jit/exec_const.rs", "src/core/ir/eval.rs", "src/core/blueprint/definitions.rs"],
     [("update_protected", "src/core/blueprint/operators/protected.rs"), ("AuthPlanner", "src/core/jit/transform/auth_planner.rs"), ("is_protected", "src/core/jit/model.rs"), ("IR::eval Protect", "src/core/ir/eval.rs")],
     how="decision tables of the marking, planning, plan-level and evaluation steps: what each adds, in which order the steps are applied and on which condition the inner expression is reached.")

prop("P03", "Shared plans, precomputed answers and deduplication never mix up operations",
     "A query plan is reused only for a request with the same query text and operation name, and a precomputed constant response is served only for a request without variables whose plan is constant and unprotected. Two in-flight requests share one execution only when their query, operation name, variables, extensions and forwarded headers agree and every resolver of the plan allows it.",
     ["inputs", "histories"], "every pair of requests handled by one server",
     "Tests send one request at a time; a key that forgets one part of a request serves a user somebody else's answer only for a particular pair.",
     ["src/core/jit/graphql_executor.rs", "src/core/jit/request.rs", "src/core/jit/transform/check_const.rs", "src/core/jit/transform/check_dedupe.rs", "src/core/jit/transform/check_cache.rs", "src/core/app_context.rs", "src/core/async_graphql_hyper.rs"],
     [("JITExecutor", "src/core/jit/graphql_executor.rs"), ("operation_id", "src/core/async_graphql_hyper.rs"), ("CheckConst, CheckDedupe", "src/core/jit/transform")],
     how="decision tables of every cache and dedupe key (which parts of the request reach it) and of the conditions under which a stored plan, response or execution is reused.")

prop("P08", "Upstream calls share a result only when they are the same call",
     "The cache and dedupe key of a resolver call covers its kind, method, full URL, headers and body, for GraphQL the operation and for gRPC the method, rendered for the current request. A call whose key cannot be computed is an error or is executed by itself; only calls marked as dedupable share an in-flight result.",
     ["inputs", "histories"], "every pair of resolver calls",
     "Tests compare two or three sample templates; a key that leaves out a part collides only for calls differing in that part alone.",
     ["src/core/http/request_template.rs", "src/core/graphql/request_template.rs", "src/core/grpc/request_template.rs", "src/core/ir/model.rs", "src/core/ir/eval_io.rs", "src/core/grpc/data_loader_request.rs"],
     [("CacheKey impls", "src/core/*/request_template.rs"), ("IO::cache_key, IO::dedupe", "src/core/ir/model.rs"), ("eval_io", "src/core/ir/eval_io.rs")],
     how="decision tables: the exact sequence of parts each key hashes, and the conditions under which a result is shared.")

prop("P13", "Resolver expressions evaluate to exactly what their parts say",
     "A path, a map, a pipe, a merge, an enum map, a cached and a protected expression each evaluate their own parts, in order, with the value, arguments, headers, environment and variables of the current request; a missing path is null and not an error. Rewriting an expression visits each part and changes only what the rewrite names.",
     ["inputs"], "every resolver expression and request context",
     "Tests evaluate small expressions; nested combinations and absent values are what an edit gets wrong.",
     ["src/core/ir/eval.rs", "src/core/ir/eval_context.rs", "src/core/path.rs", "src/core/ir/model.rs", "src/core/blueprint/dynamic_value.rs", "src/core/serde_value_ext.rs"],
     [("IR::eval", "src/core/ir/eval.rs"), ("EvalContext", "src/core/ir/eval_context.rs"), ("PathString, PathValue, PathGraphql", "src/core/path.rs"), ("IR::modify, IR::pipe", "src/core/ir/model.rs")],
     how="decision tables of the evaluator, its context accessors and the rewriting combinators.")

prop("P14", "Upstream requests are rendered from their template without loss",
     "An upstream request has the method, base URL, path, query parameters, headers and body its template gives for the current context, with each query value encoded in the configured style, absent query values skipped as configured and template headers added to the forwarded ones. A GraphQL request carries the selection and arguments asked for, and a gRPC request the message its method's descriptor describes.",
     ["inputs"], "every template and request context",
     "Tests render sample templates; lists, nulls, missing values and mixed headers are where requests silently change.",
     ["src/core/http/request_template.rs", "src/core/http/query_encoder.rs", "src/core/graphql/request_template.rs", "src/core/grpc/request_template.rs", "src/core/grpc/protobuf.rs"],
     [("RequestTemplate", "src/core/http/request_template.rs"), ("QueryEncoder", "src/core/http/query_encoder.rs"), ("RequestTemplate", "src/core/graphql/request_template.rs"), ("ProtobufOperation", "src/core/grpc/protobuf.rs")],
     how="decision tables of the rendering functions: what each part of the request is built from and on which condition it is left out.")

prop("P15", "Each resolver gets the upstream response that belongs to its request",
     "A resolver call is executed directly or through the loader that is configured for it, and its value is taken from the response to its own request: a batched response is split by the configured key or position, and a key without a match yields null or an empty list. A failed status, transport error or upstream error becomes an error of the field and never a value.",
     ["inputs", "faults"], "every resolver call and upstream response",
     "Tests mock happy responses; failed statuses, missing keys and partial batches are the cases that hand a field somebody else's data.",
     ["src/core/ir/eval_io.rs", "src/core/ir/eval_http.rs", "src/core/graphql/data_loader.rs", "src/core/grpc/data_loader.rs", "src/core/grpc/request.rs", "src/core/http/response.rs"],
     [("eval_io_inner", "src/core/ir/eval_io.rs"), ("EvalHttp", "src/core/ir/eval_http.rs"), ("GraphqlDataLoader", "src/core/graphql/data_loader.rs"), ("GrpcDataLoader", "src/core/grpc/data_loader.rs"), ("Response", "src/core/http/response.rs")],
     how="decision tables of the dispatch on the resolver kind, the status and error handling, and the way a response is split over the requests of a batch.")

prop("P04", "Each request reaches its handler and only the allowed headers go upstream",
     "A request is answered by the handler its method and path name (REST, GraphQL, health, showcase or metrics), and any other one with 404. A GraphQL body that cannot be read as a request gets an error response, an application/graphql body is the query itself, and a resolver sees exactly the request headers whose names are allowed, with all their values.",
     ["inputs"], "every HTTP request and server configuration",
     "Tests send well-formed requests to the default routes; malformed bodies, repeated headers and renamed routes are what leaks or breaks.",
     ["src/core/http/request_handler.rs", "src/core/http/request_context.rs", "src/core/async_graphql_hyper.rs", "src/core/app_context.rs"],
     [("handle_request*", "src/core/http/request_handler.rs"), ("create_allowed_headers", "src/core/http/request_handler.rs"), ("GraphQLRequestLike", "src/core/async_graphql_hyper.rs")],
     how="decision tables of the dispatch, the body decoding, the header filter and the request context.")

prop("P05", "CORS answers grant exactly what the configuration allows",
     "A request's origin is echoed only when it is listed or everything is allowed, credentials, private network access, methods, headers, exposed headers, max age and vary are sent only as configured, and preflight headers only on preflight requests. A configuration that combines credentials with a wildcard is rejected.",
     ["inputs"], "every CORS configuration and request",
     "Tests check one configuration; a rule that is too lax shows only for an origin or combination nobody tried.",
     ["src/core/blueprint/cors.rs", "src/core/http/request_handler.rs"],
     [("Cors", "src/core/blueprint/cors.rs"), ("ensure_usable_cors_rules", "src/core/blueprint/cors.rs"), ("handle_request_with_cors", "src/core/http/request_handler.rs")],
     how="decision tables of every header rule, of the validation and of the way the headers are put on the two kinds of responses.")

prop("P06", "Responses carry the result, the configured headers and the upstream cookies",
     "A GraphQL response is sent as JSON with status 200, a batch as the list of its responses in order, and a REST response as the data without its envelope or as a 500 when there are errors. The configured response headers, the experimental headers and, when enabled, every upstream Set-Cookie value are added to it.",
     ["inputs"], "every response and server configuration",
     "Tests look at bodies of single responses; batches, headers and error statuses are what silently changes.",
     ["src/core/async_graphql_hyper.rs", "src/core/http/request_handler.rs", "src/core/http/request_context.rs"],
     [("GraphQLResponse, GraphQLArcResponse", "src/core/async_graphql_hyper.rs"), ("update_response_headers", "src/core/http/request_handler.rs"), ("set_cookie_headers, add_x_headers", "src/core/http/request_context.rs")],
     how="decision tables of the response builders and header updates; a call rule on the handling of Set-Cookie (known finding: several cookies are joined or dropped).",
     tech="abstract interpretation of MIR to decision tables compared with a committed specification, plus a call-graph rule")

prop("P07", "The Cache-Control of a response is the strictest of its parts",
     "The max-age of a response is the smallest one of the upstream responses and @cache settings it used, no-cache beats every age, and one private part makes it private; a batch merges its responses the same way. The header is sent only when enabled and never on a response with errors.",
     ["inputs", "schedules"], "every set of upstream cache policies and every order of the resolvers",
     "Tests use one upstream response; the combination of several policies in any order is what the header depends on.",
     ["src/core/async_graphql_hyper.rs", "src/core/http/request_context.rs", "src/core/jit/response.rs"],
     [("CacheControl", "src/core/async_graphql_hyper.rs"), ("set_cache_control, set_min_max_age", "src/core/http/request_context.rs"), ("BatchResponse::cache_control", "src/core/jit/response.rs")],
     how="decision tables of the merge, of the header value and of every update; the check and update of the shared minimum must happen under one lock.")

prop("P16", "Execution answers each selected field with its own value and place",
     "Each selected field of the plan is resolved with its own arguments and parent value, each list item in its own context, and its result appears under its output name in selection order with the null, list, scalar and enum rules of its type. Errors carry the field's path and position, queries run their root fields concurrently and mutations run them one after another.",
     ["inputs", "schedules"], "every operation plan and every resolver result",
     "Tests run sample queries; aliases, nested lists, nulls at each level and failing siblings combine in ways no sample holds.",
     ["src/core/jit/exec.rs", "src/core/jit/exec_const.rs", "src/core/jit/synth/synth.rs", "src/core/jit/context.rs", "src/core/jit/store.rs", "src/core/jit/response.rs", "src/core/jit/model.rs", "src/core/jit/graphql_error.rs"],
     [("Executor, ExecutorInner", "src/core/jit/exec.rs"), ("Synth", "src/core/jit/synth/synth.rs"), ("Context", "src/core/jit/context.rs"), ("Store, DataPath", "src/core/jit/store.rs")],
     how="decision tables of the executor (which calls are made, in sequence or joined, and what is stored under which id), of the response synthesis and of the plan model.")

prop("P17", "An operation is planned as written, with its directives and arguments applied",
     "The operation named by the request is planned, an unknown or ambiguous name is an error, and @skip and @include drop exactly the fields they name for the given variables, on fields and on fragments. Arguments take the given value, else the default; a required value that is missing or null is an error, for nested input fields and list items too, and fields of one output name are merged.",
     ["inputs"], "every operation document and set of variables",
     "Tests plan sample queries; conditions on fragments, repeated fields and nested defaults only matter in documents nobody sampled.",
     ["src/core/jit/builder.rs", "src/core/jit/transform/skip.rs", "src/core/jit/transform/input_resolver.rs", "src/core/jit/transform/graphql.rs"],
     [("Builder", "src/core/jit/builder.rs"), ("Skip", "src/core/jit/transform/skip.rs"), ("InputResolver", "src/core/jit/transform/input_resolver.rs"), ("GraphQL", "src/core/jit/transform/graphql.rs")],
     how="decision tables of the operation lookup, conditions, skipping, argument resolution and upstream selection sets; rules over the MIR of the plan builder for fragment directives and repeated fields (both known findings). The field-by-field construction inside Builder::iter is one table (names, arguments, ids, conditions, resolver, order); it was drafted by the analyser and read row by row only in part, so it pins the current plan rather than an independent oracle.",
     tech="abstract interpretation of MIR to decision tables compared with a committed specification, plus control-flow rules over the MIR of the plan builder")

prop("P45", "An SDL configuration is read without losing or changing what it says",
     "Every type, interface, input, union, enum, scalar, field, argument, default value, description and supported directive of an SDL document is read into the configuration under its own name and with its own value. A document that does not parse, and a directive or default value that is not valid, is an error that names where it is.",
     ["inputs"], "every SDL document",
     "Tests read sample configurations; a directive, default or description that is dropped shows only in the document that uses it there.",
     ["src/core/config/from_document.rs"],
     [("from_document", "src/core/config/from_document.rs"), ("to_object_type, to_common_field, to_arg", "src/core/config/from_document.rs"), ("to_enum, to_union_types", "src/core/config/from_document.rs")],
     how="decision tables of every reading function: which part of the document each part of the configuration is built from, and on which condition it fails. When a schema directive such as @server is repeated, the last one wins.")

prop("P46", "Questions about a configuration are answered from its whole type graph",
     "Whether a type is a scalar, an input, an output, a union member or an operation root, which types implement an interface and which are unused is decided from every type, field and argument of the configuration. Reading from and printing to SDL, JSON or YAML goes to the format that was named, and runtime settings replace exactly the runtime settings.",
     ["inputs"], "every configuration",
     "Tests ask about small configurations; an answer that misses a connection shows only in a type graph with that connection.",
     ["src/core/config/config.rs"],
     [("Config", "src/core/config/config.rs"), ("Type, Field", "src/core/config/config.rs"), ("RuntimeConfig", "src/core/config/config.rs")],
     how="decision tables of the queries and conversions of Config, Type, Field and RuntimeConfig. get_all_used_type_names (a work list) is not tabulated.")

prop("P47", "Linked and merged configurations combine every part exactly once",
     "Merging subgraphs keeps output fields of either side and input fields of both, makes a merged input required when one side requires it and a merged output non-null only when both are, and reports a type or list mismatch or a required input that one side lacks. Certificates, proto files, scripts and other linked resources are added to the configuration they were linked from, from the path that was named.",
     ["inputs"], "every pair of configurations and set of links",
     "Tests merge a few schemas; the nullability rules and missing sides multiply into combinations nobody wrote down.",
     ["src/core/config/config_module.rs", "src/core/config/config_module/merge.rs", "src/core/config/reader.rs", "src/core/variance.rs"],
     [("Contravariant, Covariant, Invariant", "src/core/config/config_module/merge.rs"), ("ConfigModule", "src/core/config/config_module.rs"), ("ConfigReader", "src/core/config/reader.rs")],
     how="decision tables of the merge of types, fields, arguments, enums and modules, and of the resource readers. Cache::unify (which of the two merges a type gets), ext_links and read_all are not tabulated: their tables are too large or do not converge.")

prop("P48", "A configuration printed as SDL says what the configuration says",
     "Every type, field, argument, default, description, directive and schema setting of a configuration appears in the SDL it is printed as, under its own name and in a form that can be read back. An object, interface, input, union, enum or scalar is printed as what it is.",
     ["inputs"], "every configuration",
     "Tests print sample configurations; a part that is not printed is lost silently when the output is used as the new configuration.",
     ["src/core/config/into_document.rs", "src/core/document.rs"],
     [("config_document", "src/core/config/into_document.rs"), ("field_directives, type_directives", "src/core/config/into_document.rs"), ("print", "src/core/document.rs")],
     how="decision tables of the printers and directive lists, and a read-coverage rule over the MIR: every field of the configuration structs is read by the printing code, and every place that builds a field or argument reads all its parts (known findings: @telemetry, @discriminate and argument descriptions).",
     tech="abstract interpretation of MIR to decision tables compared with a committed specification, plus a field-read coverage rule over the MIR")

prop("P49", "Configuration transformers change only what they are for",
     "Merging similar types, flattening single fields, resolving ambiguous types, expanding unions in inputs, flattening nested unions, tree shaking and improving names rewrite the references together with the types they rename or replace, and leave everything else as it was. Types are merged only when they are both outputs or both inputs of the same kind and similar enough, and federation keys are taken from exactly the expressions that use them.",
     ["inputs"], "every configuration and transformer setting",
     "Tests transform sample configurations; a reference that is not rewritten, or a type merged with the wrong kind, shows only in the graph that has it.",
     ["src/core/config/transformer/mod.rs", "src/core/config/transformer/subgraph.rs", "src/core/config/transformer/union_input_type.rs", "src/core/config/transformer/nested_unions.rs", "src/core/config/transformer/ambiguous_type.rs"],
     [("MergeableTypes, TypeMerger", "src/core/config/transformer/merge_types"), ("UnionInputType, NestedUnions", "src/core/config/transformer"), ("KeysExtractor", "src/core/config/transformer/subgraph.rs"), ("Preset, Required", "src/core/config/transformer")],
     how="decision tables of the helper functions and of the transformers whose table is reviewable. AmbiguousType, RenameTypes, Subgraph::transform, Similarity::similarity_inner and TypeMerger::merger are covered through their helpers only.")

prop("P50", "The blueprint is what the configuration describes",
     "Every type, field, argument, directive, server, upstream, telemetry, auth and batching setting of a configuration becomes the same thing in the blueprint, with the defaults and limits documented for it. Unknown types, missing query roots, fields without resolvers, unsupported templates and invalid settings are errors that name the place, and unused types are left out.",
     ["inputs"], "every configuration",
     "Tests compile sample configurations; a setting that is dropped, defaulted wrongly or not validated shows only in the configuration that relies on it.",
     ["src/core/blueprint/definitions.rs", "src/core/blueprint/from_config.rs", "src/core/blueprint/schema.rs", "src/core/blueprint/server.rs", "src/core/blueprint/upstream.rs", "src/core/blueprint/auth.rs", "src/core/blueprint/telemetry.rs", "src/core/blueprint/compress.rs", "src/core/blueprint/index.rs", "src/core/blueprint/into_schema.rs", "src/core/blueprint/mustache.rs"],
     [("to_definitions", "src/core/blueprint/definitions.rs"), ("config_blueprint", "src/core/blueprint/from_config.rs"), ("Server", "src/core/blueprint/server.rs"), ("Index", "src/core/blueprint/index.rs"), ("MustachePartsValidator", "src/core/blueprint/mustache.rs")],
     how="decision tables of the functions that build each part of the blueprint. into_schema::to_type and server::validate_cors are not tabulated (P05 covers the CORS rules).")

prop("P51", "Each resolver directive compiles to the call it describes",
     "@http, @grpc, @graphQL, @call, @expr, @js, @modify and federation entities compile to a resolver with the URL, method, operation, arguments, body, batching and selection they were given. Missing base URLs, unknown methods, types that do not fit the upstream schema and templates that name unknown values are errors that name the place.",
     ["inputs"], "every directive on every field",
     "Tests compile sample directives; an option that is ignored or a mismatch that is not reported shows only with that option.",
     ["src/core/blueprint/operators/http.rs", "src/core/blueprint/operators/grpc.rs", "src/core/blueprint/operators/graphql.rs", "src/core/blueprint/operators/call.rs", "src/core/blueprint/operators/expr.rs", "src/core/blueprint/operators/modify.rs"],
     [("compile_http", "src/core/blueprint/operators/http.rs"), ("compile_grpc", "src/core/blueprint/operators/grpc.rs"), ("compile_graphql", "src/core/blueprint/operators/graphql.rs"), ("compile_expr", "src/core/blueprint/operators/expr.rs")],
     how="decision tables of the compilers and validators. compile_call and update_resolver are not tabulated; the functions they call are.")

prop("P52", "The generator turns samples, protos and settings into the matching configuration",
     "From a JSON sample the generator infers the GraphQL type of every field and the request that produced it, from a proto file the type of every message, enum and method, under names that are valid GraphQL and distinguish what the source distinguishes. Its settings are read with paths relative to the settings file, secrets and variables resolved, and the output goes to the path and format that were named, never over an existing file without consent.",
     ["inputs"], "every JSON sample, proto file and generator setting",
     "Tests generate from samples; name clashes, nested messages, odd field names and partial settings are in none of them.",
     ["src/core/generator/generator.rs", "src/core/generator/from_proto.rs", "src/core/generator/from_json.rs", "src/core/generator/graphql_type.rs", "src/cli/generator/config.rs", "src/cli/generator/generator.rs"],
     [("Generator", "src/core/generator/generator.rs"), ("Context", "src/core/generator/from_proto.rs"), ("TypeGenerator", "src/core/generator/json/types_generator.rs"), ("GraphQLType", "src/core/generator/graphql_type.rs"), ("Config", "src/cli/generator/config.rs")],
     how="decision tables of the inference and naming functions, of the settings and of the writing of the result. append_msg_type, from_proto and Generator::resolve_io are not tabulated.")

prop("P53", "Proto definitions resolve to the services, methods and messages they declare",
     "A gRPC method is looked up by its package, service and name, its messages are encoded and decoded by the descriptors of that method, and its URL and headers are built from them. Imports of a proto file are found relative to it or in its proto paths and read once, and what reflection returns is merged with all its dependencies.",
     ["inputs"], "every proto file, import graph and gRPC configuration",
     "Tests read a few proto files; nested imports, packages and name clashes decide whether the right descriptor is used.",
     ["src/core/grpc/protobuf.rs", "src/core/proto_reader/reader.rs", "src/core/proto_reader/fetch.rs", "src/core/grpc/request_template.rs"],
     [("ProtoReader", "src/core/proto_reader/reader.rs"), ("GrpcReflection", "src/core/proto_reader/fetch.rs"), ("ProtobufSet", "src/core/grpc/protobuf.rs")],
     how="decision tables of the readers, look-ups and converters. GrpcReflection::execute is not tabulated (its table is too large).")

prop("P54", "Commands do what was asked with the settings that were given",
     "Each command reads the configuration files it was given, reports their errors, and starts, checks, generates or creates what it is for. The server listens on the configured address with the configured HTTP version and TLS, files are written only where the user agreed, and the runtime is built from the configured upstream, environment and script.",
     ["inputs", "faults"], "every command line and configuration",
     "Tests run few commands; a setting that is not passed on or an error that is swallowed shows only in the deployment that depends on it.",
     ["src/cli/tc/run.rs", "src/cli/tc/start.rs", "src/cli/tc/check.rs", "src/cli/tc/init.rs", "src/cli/server/http_server.rs", "src/cli/server/server_config.rs", "src/cli/runtime/mod.rs"],
     [("run", "src/cli/tc/run.rs"), ("Server", "src/cli/server/http_server.rs"), ("ServerConfig", "src/cli/server/server_config.rs"), ("init", "src/cli/runtime/mod.rs")],
     how="decision tables of the command functions, server start-up, runtime construction and file access. init_command and validate_rc_config_files are not tabulated.")

prop("P55", "Usage tracking happens only where it is allowed and sends one event as it is",
     "Nothing is sent when tracking is switched off by either environment variable name, or left unset in a development build. An event carries the command, version, host and user facts that were determined for it, and goes to each collector with that collector's credentials.",
     ["inputs", "faults"], "every environment and event",
     "Tests check the switch with given values; what is read from the environment and what is sent is never looked at.",
     ["tailcall-tracker/src/can_track.rs", "tailcall-tracker/src/dispatch.rs", "tailcall-tracker/src/collect/ga.rs", "tailcall-tracker/src/collect/posthog.rs"],
     [("can_track", "tailcall-tracker/src/can_track.rs"), ("Tracker", "tailcall-tracker/src/dispatch.rs")],
     how="decision tables of the switch, of the event and of both collectors' requests. When both variables are set the long name decides; a collector that fails stops the ones after it.")

prop("P56", "Formatting and schema files come from the source that was given",
     "The formatter is chosen by the file extension in any case, gets the source on its standard input and the found configuration, and its output is returned only when it succeeded; otherwise its error text is. The published GraphQL and JSON schema files are compared with and written from the directives' current definitions.",
     ["inputs", "faults"], "every file name, source and formatter result",
     "Tests format one or two files with a formatter that works; unknown extensions and failing formatters are not in them.",
     ["tailcall-prettier/src/prettier.rs", "tailcall-prettier/src/parser.rs", "tailcall-typedefs/src/main.rs", "tailcall-upstream-grpc/src/main.rs"],
     [("Prettier", "tailcall-prettier/src/prettier.rs"), ("Parser::detect", "tailcall-prettier/src/parser.rs"), ("mode_check", "tailcall-typedefs/src/main.rs")],
     how="decision tables of the formatter, the extension rule, the schema file commands and of the sample gRPC server's methods.")

prop("P57", "Telemetry is exported as configured and counts what happened",
     "Traces, logs and metrics go to the configured exporter, endpoint and headers, and to none when none is configured. Each upstream request is counted under its URL, method and the status or error it really had, and clients are built with the configured timeouts, keep-alive, proxy and user agent.",
     ["inputs", "faults"], "every telemetry and upstream configuration and every request outcome",
     "Tests do not export; a counter with the wrong attributes or a setting that is not passed on goes unnoticed.",
     ["src/cli/telemetry.rs", "src/cli/metrics.rs", "src/cli/runtime/http.rs"],
     [("init_opentelemetry", "src/cli/telemetry.rs"), ("RequestCounter", "src/cli/runtime/http.rs"), ("NativeHttp", "src/cli/runtime/http.rs")],
     how="decision tables of the exporters, providers, counters and of the HTTP client builder.")

prop("P58", "N+1 reports name only resolvers that run once per list item",
     "A reported path leads from the query root or a federated entity through its fields to a resolver that is below a list and not batched. Batched resolvers, resolvers outside lists and the repetition of a recursive type are not reported, and a federated entity counts as a list.",
     ["inputs"], "every configuration",
     "Tests report on small configurations; a list above, a batch setting or a recursion elsewhere in the graph changes the answer.",
     ["src/core/config/npo/tracker.rs"],
     [("PathTracker", "src/core/config/npo/tracker.rs"), ("QueryPath", "src/core/config/npo/tracker.rs")],
     how="decision tables of the traversal and of the report. Completeness is not claimed: a type inside a cycle is cached with the paths that were known when the cycle closed.")

prop("P59", "A linked resource is read from its place, once, and reported when unreadable",
     "An http or https location is fetched, any other one is read as a file, and what was read is returned under the location it was asked for. A resource that was read before is not read again, requests with another method, URL, header or body are other resources, and an unreadable one is an error.",
     ["inputs", "faults"], "every resource location and sequence of reads",
     "Tests read one file; which resources share a cached content and what happens on failure is not in them.",
     ["src/core/resource_reader.rs", "src/core/config/reader.rs", "src/core/endpoint.rs"],
     [("Direct, Cached", "src/core/resource_reader.rs"), ("Resource", "src/core/resource_reader.rs"), ("ConfigReader::read", "src/core/config/reader.rs")],
     how="decision tables of the readers: where each kind of resource is read, under which key it is cached and what the result is.")
