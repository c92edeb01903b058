import docshape
RX = r"async_graphql_hyper::|tailcall::core::jit::|jwt_verify::|proto_reader::|worker::worker::|tailcall_tracker::|cli::llm::|http_cache"


def check(ctx):
    docshape.check(ctx, RX, "P42.keys")
