// Splits a check into one translation unit per protocol.
#pragma once
#ifndef TU
#define TU -1
#endif
#if TU == -1 || TU == 0
#define ON_ZERA(...) __VA_ARGS__
#else
#define ON_ZERA(...)
#endif
#if TU == -1 || TU == 1
#define ON_FLEX(...) __VA_ARGS__
#else
#define ON_FLEX(...)
#endif
#if TU == -1 || TU == 2
#define ON_MSGPACK(...) __VA_ARGS__
#else
#define ON_MSGPACK(...)
#endif
#if (TU == -1 || TU == 3) && defined(HAVE_JSON)
#define ON_JSON(...) __VA_ARGS__
#else
#define ON_JSON(...)
#endif
#if (TU == -1 || TU == 4) && defined(HAVE_CBOR)
#define ON_CBOR(...) __VA_ARGS__
#else
#define ON_CBOR(...)
#endif
#define PER_PROTOCOL(M) \
    ON_ZERA(M(zerialize::Zera, "zera")) \
    ON_FLEX(M(zerialize::Flex, "flex")) \
    ON_MSGPACK(M(zerialize::MsgPack, "msgpack")) \
    ON_JSON(M(zerialize::JSON, "json")) \
    ON_CBOR(M(zerialize::CBOR, "cbor"))
