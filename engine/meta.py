#!/usr/bin/env python3
"""meta.py: writes properties.jsonl, MANIFEST.json and known-findings.txt from the tables below and props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
from props import PROPS, KNOWN, FIXED

def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None))

PR = 'src/protocol.cpp'
A = []
A.append(P('C01', 'ASCII escaping is transparent and leaves no control bytes',
 'Every message passed through the ASCII escape layer arrives at the decoding side byte for byte, however it was split over partial encodes, and the encoded form contains no byte that the layer has to escape except as part of an escape pair. Decoding follows the escape grammar for every byte string, including malformed ones, without touching memory outside of the frame. The encoded form is at most twice as long as the message, and the end of the message is signalled exactly when the caller signals it.',
 ['inputs', 'histories'], 'all byte strings of all lengths, both escape modes, all splits into partial encodes', 'tests encode a dozen fixed strings; the guarantee is about all byte strings and lengths', [PR, 'include/libstored/protocol.h'],
 [('escape set and pair', PR + ': AsciiEscapeLayer::needEscape'), ('encode loop', PR + ': AsciiEscapeLayer::encode'), ('in-place decode', PR + ': AsciiEscapeLayer::decode')], ['bytes handed to the lower layer', 'frame handed to the upper layer']))
A.append(P('C02', 'Terminal framing extracts exactly the framed messages from a byte stream',
 'In a byte stream that mixes ordinary terminal output with framed messages, the terminal layer delivers exactly the content of each frame, once and in order, and passes all other bytes to the non-debug sink unchanged and in order. The result does not depend on how the stream is cut into chunks. Encoding any message, whole or in parts, puts exactly one start marker before it and one end marker after it.',
 ['inputs', 'histories'], 'all byte streams and all ways to chunk them; all sequences of partial encodes', 'tests feed a few fixed strings and chunkings', [PR, 'include/libstored/protocol.h'],
 [('inject/extract state machine', PR + ': TerminalLayer::decode'), ('frame markers', PR + ': TerminalLayer::encode/encodeStart/encodeEnd')], ['frames at the upper layer', 'bytes at the non-debug sink'],
 [('m_decodeState', 'where in the frame grammar the stream is', 'TerminalLayer'), ('m_encodeState', 'whether a frame is being sent', 'TerminalLayer')]))
A.append(P('C03', 'Segmentation and buffering deliver each message whole and within the MTU',
 'A message of any length sent through the segmentation layer is cut into segments that all fit the maximum transmission unit, and the receiving side delivers it exactly once, complete and in order, when the last segment arrived. Messages that follow each other do not mix. The buffer layer hands every encoded message that is smaller than its buffer down as a single last chunk, and loses, duplicates or reorders no byte of any message, whatever its size.',
 ['inputs', 'histories', 'configurations'], 'all message lengths, all MTUs, all splits into partial encodes, all message sequences', 'tests use a handful of short messages and MTUs', [PR, 'include/libstored/protocol.h'],
 [('split at MTU', PR + ': SegmentationLayer::encode'), ('reassembly', PR + ': SegmentationLayer::decode'), ('buffering', PR + ': BufferLayer::encode')], ['chunks handed down', 'messages handed up'],
 [('m_encoded', 'bytes in the current segment', 'SegmentationLayer'), ('m_decode', 'segments received so far', 'SegmentationLayer'), ('m_buffer', 'bytes waiting for the end of the frame', 'BufferLayer')]))
A.append(P('C04', 'CRC layers deliver only undamaged frames and always fit the MTU',
 'A frame sent through a CRC layer is the message followed by its CRC, over all partial encodes since the previous frame, and the receiver delivers exactly the message. Any frame whose trailer does not match its content is dropped; in particular every single-bit error and every error burst of up to 7 bits (CRC-8) or 16 bits (CRC-16) is detected. The maximum message size that a CRC layer reports leaves room for its trailer.',
 ['inputs', 'histories', 'configurations'], 'all messages, lengths, splits into partial encodes and error bursts; all lower-layer MTUs', 'tests flip a few bits in one fixed message', [PR, 'include/libstored/protocol.h'],
 [('table step', PR + ': Crc8Layer::compute, Crc16Layer::compute'), ('trailer', PR + ': Crc8Layer::encode, Crc16Layer::encode'), ('check', PR + ': Crc8Layer::decode, Crc16Layer::decode')], ['frames handed down', 'messages handed up'],
 [('m_crc', 'CRC of the frame that is being encoded', 'Crc8Layer, Crc16Layer')]))
A.append(P('C05', 'The ARQ layer delivers every message exactly once and in order',
 'Once two ARQ layers are connected, over a channel that may lose or repeat frames, the receiving layer hands the messages that the peer sent to the upper layer exactly once, in the order sent, and unmodified, and the connection is not reset. A message leaves the retransmit queue only after the peer acknowledged it, so as long as retransmission is triggered and frames get through, every message is eventually delivered. When a side restarts, the connection is restored as soon as frames get through; until then a message may arrive again, but none is lost or gets out of order. The layer never aborts or reads outside of the frame, whatever it receives.',
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all send/receive/loss/duplication histories, all received byte strings', 'tests play a few fixed scenarios with one or two losses', [PR, 'include/libstored/protocol.h'],
 [('sequence acceptance', PR + ': ArqLayer::decode'), ('send queue and acknowledgement', PR + ': ArqLayer::pushEncodeQueue, popEncodeQueue, transmit')], ['messages at the upper layers', 'frames at the lower layer'],
 [('m_sendSeq/m_recvSeq', 'next sequence number to send / to accept', 'ArqLayer'), ('m_encodeQueue', 'messages not acknowledged yet', 'ArqLayer')]))
A.append(P('C06', 'The debug ARQ layer survives lost requests and responses',
 'When a part of a debug request or of its response is lost on the wire, retransmitting the request gives the same response again without executing the request twice, unless the upper layer marked the response as purgeable or it does not fit the buffer; then the request is executed again and the first message of its response is marked. Responses are delivered complete and in order or not at all. No received byte string makes the layer abort or read outside of the frame.',
 ['inputs', 'histories', 'fault_sequences'], 'all request/response histories with losses and repetitions, all received byte strings', 'tests play a few fixed scenarios', [PR, 'include/libstored/protocol.h'],
 [('sequence codec', PR + ': DebugArqLayer::decodeSeq, encodeSeq'), ('request/response state machine', PR + ': DebugArqLayer::decode, encode')], ['requests at the upper layer', 'frames at the lower layer'],
 [('m_decodeSeq', 'next expected request', 'DebugArqLayer'), ('m_encodeSeq', 'next response chunk', 'DebugArqLayer')]))
A.append(P('C08', 'The change journal never loses or invents a change',
 'For every history of writes and queries, the journal reports that an object changed since a given moment exactly when the object was written at or after that moment (for moments of the last 32768 periods; of older moments, more may be reported but nothing is lost), and encoding the updates since that moment lists each such object exactly once with its current value. Decoding an update message applies exactly those values and marks exactly those objects as changed. A malformed update message leaves memory outside of the store alone and is rejected.',
 ['inputs', 'histories', 'configurations'], 'all histories of writes and queries, all store sizes, all update messages', 'tests do a few writes on one store', ['src/synchronizer.cpp', 'include/libstored/synchronizer.h'],
 [('change tree', 'src/synchronizer.cpp: StoreJournal::changed, update, regenerate, bumpSeq, hasChanged'), ('update codec', 'src/synchronizer.cpp: StoreJournal::encodeUpdates, decodeUpdates, keyToBuffer, decodeKey')], ['hasChanged', 'the update message', 'the store buffer'],
 [('m_changes', 'balanced tree over keys with the highest sequence number per subtree', 'StoreJournal'), ('m_seq', 'current moment', 'StoreJournal')]))
A.append(P('C09', 'Synchronized stores converge and survive malformed messages',
 'When two synchronizers are connected and one side writes while the connection works, both stores hold equal content after the updates have been exchanged, for every history of writes, processing rounds and reconnects. Changes received from one peer are forwarded to the other peers of the store and not sent back. A malformed message never touches memory outside of the store and never stops the synchronizer.',
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all histories of writes, process calls, disconnects and reconnects on both sides, all received byte strings', 'tests run a few fixed sequences', ['src/synchronizer.cpp', 'include/libstored/synchronizer.h'],
 [('connection state machine', 'src/synchronizer.cpp: SyncConnection::decode, source, process, bye'), ('synchronizer', 'src/synchronizer.cpp: Synchronizer')], ['contents of both stores'],
 [('m_store', 'per store: sequence number and ids', 'SyncConnection')]))
A.append(P('C10', 'Debug value encoding round-trips for every type and value',
 'Reading an object over the debug protocol gives the hexadecimal encoding of its current value, and writing that text back restores exactly the same value, for every data type and value. Text that is not a valid encoding is refused without changing the object. Encoded text is canonical: big endian without superfluous leading zeros for numbers, and byte order for blobs and strings.',
 ['inputs'], 'all types, all values, all texts of all lengths', 'tests read and write a few values per type', ['src/debugger.cpp', 'include/libstored/debugger.h'],
 [('hex codec', 'src/debugger.cpp: Debugger::encodeHex, decodeHex')], ['response text', 'object value']))
A.append(P('C11', 'The debugger answers every request exactly once and stays within its limits',
 'Every debug request, well-formed or not, gets exactly one response, and one that needs a result gets that result or an error. A refused request changes nothing in any store, alias, macro, memory or stream. Repeated requests, in any order, do not make the debugger exceed its configured limits on aliases, macros and streams.',
 ['inputs', 'histories'], 'all request byte strings and all sequences of requests', 'tests send a few dozen fixed requests', ['src/debugger.cpp', 'include/libstored/debugger.h'],
 [('request dispatch', 'src/debugger.cpp: Debugger::process, runMacro'), ('limits', 'src/debugger.cpp: Debugger::stream, process')], ['frames at the lower layer'],
 [('m_aliases, m_macros, m_streams', 'what requests have defined', 'Debugger')]))
A.append(P('C12', 'Every name in the directory is found and no other',
 'Looking up the full name of a store object, or an abbreviation that keeps of every part of the name the first character and all characters that tell it apart from others, gives exactly that object. A name that differs from an object in a character that tells it apart, or stops before it is unambiguous, does not give that object. Listing the directory gives every object exactly once with its full name, type, size and place. A lookup never reads outside of the directory or the given name.',
 ['inputs', 'configurations'], 'all names of all lengths; the directories of the generated stores', 'tests look up a few names of one store', ['src/directory.cpp', 'include/libstored/directory.h', 'python/libstored/generator/dsl/types.py'],
 [('lookup automaton', 'include/libstored/directory.h: impl::find'), ('traversal', 'src/directory.cpp: list'), ('directory generation', 'python/libstored/generator/dsl/types.py: Directory')], ['the found variant', 'the listed names']))
A.append(P('C13', 'Scratch pad allocations never overlap, move or get lost',
 'Memory allocated from the scratch pad is aligned as requested, does not overlap any other live allocation, and neither moves nor changes until it is released by a rollback, a reset or the end of the enclosing snapshot. A rollback to a snapshot releases exactly what was allocated after it, so the reported size is again what it was. The pad never hands out more than it has, and the reported size and capacity stay consistent.',
 ['inputs', 'histories'], 'all sequences of allocate, snapshot, rollback, reset, reserve and shrink with all sizes and alignments', 'tests do a few fixed allocations', ['include/libstored/spm.h'],
 [('bump allocation and chunk growth', 'include/libstored/spm.h: ScratchPad::alloc, grow, pushChunk, bumpAlloc'), ('rollback', 'include/libstored/spm.h: ScratchPad::rollback, reset')], ['returned pointers', 'size()', 'capacity()'],
 [('m_buffer', 'current chunk', 'ScratchPad'), ('m_size, m_total', 'bytes used and reserved', 'ScratchPad'), ('m_chunks', 'the full chunks', 'ScratchPad')]))
A.append(P('C14', 'FIFOs keep order, lose nothing and respect their capacity',
 'For every sequence of pushes and pops, a FIFO returns the elements in the order pushed, each exactly once and unmodified; the message FIFO does so for whole messages of any length. A bounded FIFO accepts elements up to its capacity and refuses the rest without disturbing what it holds; an unbounded one never refuses. Size, available space, emptiness and fullness always agree with the content.',
 ['inputs', 'histories', 'configurations'], 'all sequences of operations, all message lengths, all capacities', 'tests do a few fixed pushes and pops', ['include/libstored/fifo.h'],
 [('ring pointers', 'include/libstored/fifo.h: Fifo, PopCount'), ('message ring', 'include/libstored/fifo.h: MessageFifo, MessageView'), ('buffer', 'include/libstored/fifo.h: Buffer')], ['popped elements', 'size(), space(), full(), empty()'],
 [('m_wp, m_rp', 'write and read position', 'Fifo')]))
A.append(P('C15', 'Store objects hold exactly the value that was written',
 'Reading a variable, variant or string object gives the value that was last written to it, for every type, value and byte order, and no write changes any other object of the store. Writing a value that is equal reports no change, and writing a different one reports exactly one change to the hooks. Strings never exceed their size and are always terminated.',
 ['inputs', 'histories', 'configurations'], 'all types, values, string lengths and sequences of writes', 'tests write a few values per type', ['include/libstored/types.h', 'src/types.cpp', 'include/libstored/util.h'],
 [('byte order and set/get', 'include/libstored/types.h: Variable, Variant'), ('size and termination', 'include/libstored/types.h: Variant::set, Variant::copy')], ['value read back', 'hooks', 'store buffer']))
A.append(P('C16', 'Conversions and string helpers are exact at every boundary',
 'Saturated conversion of any value of any numeric type to any other gives the value itself when it is representable and the nearest bound otherwise, byte swapping is its own inverse and reverses the bytes, and the length-bounded string helpers compare and copy like their standard counterparts without reading or writing past the given bounds. Printing bytes as a string literal is reversible and shows every byte.',
 ['inputs'], 'all values of all arithmetic types; all byte strings and length bounds', 'tests sample a few values per type pair', ['include/libstored/util.h', 'src/util.cpp'],
 [('saturated_cast', 'include/libstored/util.h: impl::saturated_cast_helper'), ('byte order', 'include/libstored/util.h: swap_endian_, store_endian, load_endian'), ('strings', 'src/util.cpp: strncmp, strncpy, string_literal')], ['returned value', 'destination buffer']))
A.append(P('C17', 'Compression is lossless for every message',
 'Every message (except an empty one, which may be dropped) sent through the compression layer arrives byte for byte at the decoding side, for every content, length and split into partial encodes, and messages that follow each other do not influence each other. The end of the message is signalled exactly once. Corrupt compressed input never makes the decoder touch memory outside of its buffers.',
 ['inputs', 'histories'], 'all messages, lengths, splits and sequences', 'tests compress a few fixed strings', ['src/compress.cpp', 'include/libstored/compress.h'],
 [('encoder/decoder driver', 'src/compress.cpp: CompressLayer::encode, decode')], ['frames handed down', 'messages handed up']))
NA = [
 (P('C18', 'Single-producer single-consumer FIFO is safe on weak memory',
  'A FIFO declared thread-safe may be used by one producer and one consumer thread at the same time without locks: the consumer sees every element exactly once, in order and completely written, on every supported memory model.',
  ['schedules'], 'all interleavings and memory orderings of one producer and one consumer', 'tests run on one machine and hit few interleavings', ['include/libstored/fifo.h'], [('atomic ring positions', 'include/libstored/fifo.h: FifoPointer')], ['popped elements']),
  'a property of interleavings under the C++ memory model; the contracts used here are about sequential execution of the code, and no deductive verifier for concurrent C++ is installed'),
 (P('C19', 'Pollers report readiness of every pollable exactly when it is ready',
  'A poller returns exactly those of its registered pollables that are ready for a requested event, within the requested time.',
  ['schedules', 'histories'], 'all sets of pollables and all timings', 'tests use a pipe and a few timings', ['src/poller.cpp', 'include/libstored/poller.h'], [('poll()', 'src/poller.cpp')], ['poll results']),
  'depends on operating system calls and time, which have no contract that a prover could rely on beyond restating the property'),
 (P('C20', 'Control components compute their documented transfer function',
  'The components library (ramp, PID, filters, amplifier and so on) computes its documented result within floating point accuracy for every input and parameter set and never produces a non-finite output from finite, sane inputs.',
  ['inputs', 'histories'], 'all inputs and parameter sequences', 'tests sample a few step responses', ['include/libstored/components.h'], [('components', 'include/libstored/components.h')], ['output signals']),
  'floating-point accuracy over unbounded histories: real-valued error bounds are out of reach of the bit-vector contracts used here'),
 (P('C21', 'The generator turns every valid store description into an equivalent store',
  'For every valid store description the generated C++, Python and VHDL code describe the same objects with the same names, types, sizes, offsets and initial values.',
  ['programs', 'configurations'], 'all store descriptions', 'tests generate a dozen descriptions', ['python/libstored'], [('parser and templates', 'python/libstored/generator, python/libstored/data')], ['generated files']),
  'the generator is Python with Jinja templates; no deductive verifier for Python is installed that covers them (the directory of the generated test stores is covered by C12)'),
]


def level_note(pid):
    p = PROPS[pid]
    n = 'VCs generated from the LLVM IR of the current sources and discharged for all inputs: ' + ', '.join(v for s in p['specs'] for v in s.get('prove', [])) + '.'
    if p.get('bounded'): n += ' Bounded or search only, not counted as proved: ' + '; '.join(p['bounded']) + '.'
    nat = [v for s in p['specs'] for v in s.get('native', [])]
    if nat: n += ' The same specification runs natively against the real code (%s) to replay counterexamples and to search for failing inputs.' % ', '.join(nat)
    return n + ' Trusted: clang front end, the VC generator, the solvers, the assumed library contracts listed in the evidence.'


def main():
    allp = A + [p for p, r in NA]
    allp.sort(key=lambda p: p['id'])
    with open(V + '/properties.jsonl', 'w') as f:
        for p in allp: f.write(json.dumps(p) + '\n')
    na = [dict(property=p['id'], reason=r) for p, r in NA]
    checks = []
    for p in A:
        pid = p['id']
        if pid not in PROPS:
            na.append(dict(property=pid, reason='no check has been built yet')); continue
        checks.append(dict(property=pid, quick_cmd='python3 engine/check.py %s quick' % pid, thorough_cmd='python3 engine/check.py %s thorough' % pid,
                           technique='contract-based deductive verification of the LLVM IR of the real code (loop invariants, SMT), with native replay', level=PROPS[pid]['level'], level_note=level_note(pid)))
    m = dict(version=1, setup_cmd='python3 engine/setup.py', checks=checks, not_applicable=sorted(na, key=lambda x: x['property']),
             hooks=dict(guard='none', enable='no hooks: the specifications include the real sources; private members are opened by the preprocessor in specs/pre.h', source_commits=[]))
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    with open(V + '/known-findings.txt', 'w') as f:
        for pid in sorted(KNOWN):
            for k in KNOWN[pid]: f.write('known: property=%s %s\n' % (pid, k['text']))
        for x in FIXED: f.write('fixed: property=%s %s %s\n' % x)
    for p in allp:
        assert len(p['title']) <= 80, p['title']


main()
