SPECIFICATION TraceSpec
ALIAS Alias
