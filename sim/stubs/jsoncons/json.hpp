// Stub: jsoncons is not installed in the sandbox. cbor.hpp only needs the CBOR encoder.
#pragma once
