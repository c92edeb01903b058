import docshape
RX = r"^tailcall::core::config::|^tailcall::cli::generator::config::|::rest::directive::|::wrapping_type::|json_schema::JsonSchema|http::method::"


def check(ctx):
    docshape.check(ctx, RX, "P43.keys")
