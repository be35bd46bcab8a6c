#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds the code under test from /repo, runs the monitors of one property."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import build, runner, special  # noqa: E402

CORE = ['value.cpp', 'gpb.cpp', 'gen.cpp', 'wire.cpp', 'jsonv.cpp', 'run.cpp']
ALL = ['ks2', 'ks3', 'opt', 'dflt', 'fc']
TRUST = ['Google protobuf 3.21.12 (protoc, DynamicMessage, json_util) as the reference for the wire format and the JSON mapping',
         'clang 18 AddressSanitizer + UndefinedBehaviorSanitizer report the memory errors of the executed paths',
         'the bridge between structs and value trees, generated from protoc descriptors']

# also compiled as on platforms whose <charconv> has no floating point numbers, with the conversions of the library
EMU = ['ks2', 'opts']
# property: groups of schemas, check sources, cases of the quick and thorough tiers, rule
CHECKS = {}


def harness(prop, src, quick, thorough, rule, groups=ALL, roots=None, opt=('-O0', '-O1'), limit=20, flags=build.ASAN, extra=(), uar=False, emu=()):
    CHECKS[prop] = dict(src=[src, *extra], uar=uar, emu=emu, quick=quick, thorough=thorough, rule=rule, groups=groups, roots=roots, opt=opt, limit=limit, flags=flags)


harness('C01', 'c_pb.cpp', 100000, 3000000,
        'one case = one random message value (boundary numbers, empty and long strings, every label and oneof member) serialized, read back, compared and serialized again; distinct = different encodings', uar=True)
harness('C02', 'c_pb.cpp', 100000, 3000000,
        'one case = one random message value, its bytes parsed by Google protobuf and compared, and checked record by record for canonical form; distinct = different encodings', uar=True)
harness('C03', 'c_pb.cpp', 100000, 3000000,
        'one case = one random valid encoding (order, unknown fields and groups, duplicates, packing, split, map entry forms, oneof members, merge into a filled message) decoded by the library and by Google; distinct = different byte strings',
        roots='vf.ks2.,vf.ks3.,vf.dflt.,vf.opt.NReq,vf.opt.NOpt,vf.opt.NRep,vf.opt.NPack,vf.opt.NOne,vf.opt.Bits,vf.opt.Enums,vf.opt.Cont,vf.opt.Fixed,vf.opt.Item', uar=True)
harness('C04', 'c_json.cpp', 60000, 2000000,
        'one case = one random message value written as JSON, checked by an independent strict JSON reader (UTF-8, unique keys), read back and compared; distinct = different values', uar=True, emu=EMU)
harness('C05', 'c_json.cpp', 40000, 1500000,
        'one case = one random message value: JSON of the library read by Google, JSON of Google (random printing options) read by the library, and one of them spelled differently read by the library; distinct = different values', uar=True, emu=EMU)

HOSTILE = ('feed.cpp', 'mutate.cpp')
harness('C06', 'c_hostile.cpp', 100000, 5000000,
        'one case = random bytes, a damaged valid encoding (structural and byte-level edits, hostile lengths and tags, every cut, deep nesting, bytes of another type) decoded from memory or in chunks, plain or delimited; heap metered; what is accepted is written and read again; distinct = different inputs', extra=HOSTILE)
harness('C07', 'c_hostile.cpp', 100000, 5000000,
        'one case = random text, a damaged valid document (token and byte edits, long tokens across the buffer, deep nesting) or every cut of a document, parsed from memory or in chunks; heap metered; distinct = different inputs', extra=HOSTILE)
harness('C18', 'c_hostile.cpp', 200000, 8000000,
        'one case = one single structural edit of a valid encoding (any level, surrounding lengths consistent) or of a JSON document, found malformed by Google or by a strict JSON reader, and therefore to be rejected; distinct = different malformed inputs', extra=HOSTILE)

harness('C08', 'c_io.cpp', 70000, 3000000,
        'one case = one input (valid, damaged; protobuf, delimited, JSON) read from memory, from readers with several chunkings, through the other overloads and with a reader throwing at chosen calls, outcomes compared; every fourth case one message written through all overloads and to a writer throwing at chosen calls; distinct = different inputs or outputs', extra=HOSTILE)
harness('C09', 'c_io.cpp', 24000, 1000000,
        'one case = one stream of 1-5 delimited messages of mixed types: predicted sizes against bytes written into exact buffers and writers in three formats, the stream read back from memory and a reader, then cut at many points; distinct = different streams', extra=HOSTILE)
harness('C16', 'c_io.cpp', 150000, 6000000,
        'one case = one message: size, buffer and writer serialization in three formats with the heap metered; messages of fixed-capacity containers are also read (valid, respelled, damaged input; memory and reader) with the heap metered; distinct = different messages', extra=HOSTILE)

harness('C10', 'c_text.cpp', 170000, 6000000,
        'one case = one byte sequence (every one- and two-byte one, all three-byte and the four-byte ones over 32 boundary bytes, random) at a random position of a text field, map key or value, read from and written to protobuf and JSON; for cases below 65536 also every \\uXXXX escape, surrogates alone and in pairs; against an independent UTF-8 checker; distinct = different texts', extra=HOSTILE)
harness('C11', 'c_limit.cpp', 200000, 8000000,
        'one case = one value around a limit (integer at and beyond the bounds of its narrow type, bit field, enum type or proto type; text of a size, list of a count around the limit, also added to a filled list), written by an independent encoder or JSON writer, read from memory, delimited or in chunks, possibly inside another message; accepted and equal if within, rejected if beyond, and what the message holds afterwards never exceeds; also written by the library; distinct = different inputs', extra=HOSTILE, emu=EMU)
harness('C12', 'c_text.cpp', 60000, 3000000,
        'one case = one byte string written to JSON and compared with RFC 4648 base64, then that text, exact or damaged, read at a random position of the document and cut inside; distinct = different documents', extra=HOSTILE)
harness('C17', 'c_thread.cpp', 4000, 600000,
        'one case = 2 to 5 (thorough: 8) threads in a new process which write the same messages and read own ones (valid and damaged inputs, every overload, delays in callbacks) under ThreadSanitizer, each result compared with the one of a process without threads; distinct = different interleavings of given operations',
        extra=('mutate.cpp',), flags=build.TSAN, limit=60)


def run_harness(prop, tier, seed, t0):
    k = CHECKS[prop]
    work = build.scratch(prop)
    try:
        exe, corpus = build.build_harness(work, k['groups'], CORE + k['src'], k['flags'], opt=k['opt'][tier == 'thorough'], emu=k['emu'])
        args = ['--set', corpus.set, '--thorough', '1' if tier == 'thorough' else '0']
        if k['roots']:
            args += ['--roots', k['roots']]
        n = k['thorough'] if tier == 'thorough' else k['quick']
        n = int(n * float(os.environ.get('VERIF_SCALE', '1')))
        tb = time.time() - t0
        res = runner.run_shards(exe, prop, n, seed, work, args, limit=k['limit'], total=800 if tier == 'quick' else 14000,
                                env=None if k['uar'] else runner.NO_UAR)
        if k['emu']:
            own = runner.run_shards(exe + '_emu', prop, n // 8, seed + 1, work, args, limit=k['limit'], total=800 if tier == 'quick' else 14000,
                                    env=None if k['uar'] else runner.NO_UAR)
            for f in own.fails:
                res.add('own conversions:' + f['key'], f['detail'], 'harness_emu ' + f['replay'])
            res.hashes |= own.hashes
            res.inconclusive += own.inconclusive
            for name, count in own.count.items():
                res.count['own conversions: ' + name] = count
        return runner.finish(prop, tier, seed, 'exploration', res, k['rule'], t0, extra={'build_s': round(tb, 1)}, assumptions=TRUST)
    finally:
        build.cleanup(work)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    try:
        if prop in CHECKS:
            return run_harness(prop, tier, seed, t0)
        return special.CHECKS[prop](prop, tier, seed, t0)
    except build.BuildError as e:
        what = str(e)
        if what.startswith('generat'):  # schemas of the corpus are no longer compiled, or not to valid C++
            res = runner.Result()
            res.add('build:' + what, e.log[:6000], what)
            return runner.finish(prop, tier, seed, 'exploration', res, 'corpus did not build', t0, evaluations=1)
        print('ERROR: ' + what + '\n' + e.log[:6000], file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
