"""Registered checks: per property the specification files, which of their functions are proved (prove=) and which run natively (native=)."""
R = '/repo/src/'
UTIL = [R + 'util.cpp', R + 'poller.cpp']
DBG = [R + f for f in ('debugger.cpp', 'protocol.cpp', 'directory.cpp', 'compress.cpp', 'util.cpp', 'poller.cpp')] + ['GEN/src/TestStore.cpp']
PROT = UTIL + [R + 'protocol.cpp']


def spec(file, prove='', native='', both='', deep='', **kw):
    """prove: proved; native: run on the real code; both; deep: proved in the thorough tier only"""
    b = both.split()
    return dict(file=file, prove=b + prove.split(), native=b + native.split(), deep=deep.split(), **kw)


KNOWN = {
 'C05': [dict(vc='arq_storm', match='repeated reset frames do not trigger each other', text='when one side restarts and the other retransmits a message before it has handled the reset, the two reset messages on their way trigger each other forever (connection lost: ArqLayer::decode, unexpected reset message)')],
 'C09': [dict(vc='syn_stale', match='updates are not applied to another store', text='when one side restarts without the other knowing, and hands out its IDs in another order, updates of the other with an ID from before the restart are applied to another store (SyncConnection::decode, Update)'),
  dict(vc='syn_late', match='content of a new connection reaches the others', text='a store with a synchronized copy that gets a source itself does not forward the objects that are not in its journal yet (StoreJournal::decodeBuffer, Welcome)')],
}
FIXED = [
 ('C04', 'f8fadca', 'CRC-16 layer on a lower layer with an MTU of 257 reports 256, so a full frame has 258 bytes'),
 ('C16', '5c40c0c', 'strncmp() orders bytes from 0x80 on below the others'),
 ('C16', '5c996fd', 'saturated_cast() of a floating-point value beyond the range of long long gives the minimum instead of the maximum'),
 ('C16', '66162b7', 'memcmp_swap() compares the wrong bytes to determine the order'),
 ('C13', 'a2abcf6', 'a rollback to a snapshot taken when the chunk was exactly full releases that chunk while its allocations are live'),
 ('C13', '6fc8ce0', 'reserve() moves the current chunk although a snapshot refers to it'),
 ('C13', '70f889a', 'rollback past a chunk with spare space beyond the maximum size aborts'),
 ('C13', '65a1d76', 'alloc() with a count whose byte size wraps around, or a total beyond the range of the counters, returns a too small allocation'),
]
FIXED += [('C11', c, t) for c, t in (
 ('a95de27', 'WriteMem of more than 32 bytes writes the rest to the wrong address'),
 ('f720f14', 'refused WriteMem request has written a part of its data'),
 ('4a1b8b4', 'macro with only a separator gives no response'),
 ('3878f88', 'refused trace request creates a stream'))]
FIXED += [('C10', c, t) for c, t in (
 ('c481a21', 'writing a value other than 0 and 1 to a bool stores an invalid bool'),
 ('62104db', 'the empty string can be read but not written'))]
FIXED += [('C12', '49cf7f0', 'an object with the same name as a scope is not found and not listed'), ('C12', 'b84b4bd', 'list() without prefix prepends the prefix of an earlier call to all names')]
FIXED += [('C02', '52df169', 'the end of a frame is missed when its content ends with ESC'), ('C02', '063c7b1', 'the start of a frame is missed directly after an ESC'),
 ('C02', 'd09c31a', 'when a start marker is split over two chunks, its ESC is passed as other data')]
FIXED += [('C15', 'ced9579', 'without UnalignedAccess, a callback for an unaligned buffer gets 0 instead of the value, and the value that is read is dropped'),
 ('C15', '70c18d8', 'Variant::copy() of a string leaves the tail of a longer old string'),
 ('C15', '19af7eb', 'Variant::get() of a string that fills its buffer does not terminate the result'),
 ('C15', '4359616', 'the accessor of an array of functions does not compile')]
FIXED += [('C14', c, t) for c, t in (
 ('7014e12', 'unbounded Fifo asserts when it moves its content to the start of a full buffer'),
 ('a92feb7', 'bounded Fifo with a position type that overflows wraps around at the wrong position'),
 ('39c052d', 'Buffer moves only part of the data of elements larger than a byte'),
 ('ace95b2', 'MessageFifo corrupts messages or asserts when it contains an empty message'),
 ('1a52f5b', 'empty MessageFifo refuses messages that fit after a partial message was dropped'),
 ('649879d', 'FifoLoopback1::mtu() is one byte more than what fits in the fifo'))]
FIXED += [('C17', '19c960d', 'what is left of a compressed message corrupts the messages that follow')]
FIXED += [('C09', '9892ccd', 'SyncConnection::reset() does not complete its Bye message, so it merges with the next message and stores are not synchronized again'), ('C09', '2e50ff5', 'a Bye with an ID drops or restores another store, as the ID is looked up in the wrong list')]
FIXED += [('C08', c, t) for c, t in (
 ('a8fc40f', 'StoreJournal of a store from 64 KiB up to 16 MiB has no key codec'),
 ('ef5a0fa', 'range check of an object in a Synchronizer update wraps around'),
 ('bf9c432', 'StoreJournal::clean() with default threshold drops recent changes'),
 ('6e73389', 'StoreJournal forgets the oldest change when it moves another one, which is reported as recent later on'))]
PROPS = {
 'C01': dict(level='proof', budget=240, specs=[spec('ascii.cpp', prove='ascii_lemma', both='ascii_encode ascii_decode', nsrc=UTIL)]),
 'C02': dict(level='proof', budget=300, specs=[spec('term.cpp', prove='term_decode_normal term_decode_normal_esc term_decode_debug term_decode_debug_esc', both='term_encode', native='term_stream term_history', nsrc=PROT)],
   assumptions=['push_back(), clear(), data() and size() of std::vector<char> as documented', 'chunks below 2^40 bytes', 'the upper layer does not call back into the decoder']),
 'C03': dict(level='proof', budget=240, specs=[spec('seg.cpp', prove='seg_decode buf_encode', both='seg_encode', native='seg_history buf_history', nsrc=PROT)],
   assumptions=['resize(), data(), size(), operator[], append() and clear() of std::vector<char> and std::string as documented', 'the maximum segment is not 1 byte (documented precondition) and constant while a message is encoded']),
 'C04': dict(level='proof', budget=240, specs=[spec('crc.cpp', prove='crc8_step crc16_step crc8_encode crc16_encode', both='crc8_burst crc16_burst crc8_decode crc16_decode crc8_mtu crc16_mtu', native='crc8_history crc16_history', nsrc=UTIL)]),
 'C05': dict(level='exploration', budget=240, specs=[spec('arq.cpp', prove='arq_seq arq_keepalive arq_encode', native='arq_history arq_stale arq_reset arq_storm arq_any', nsrc=PROT)],
   bounded=['receiving, and all that concerns two peers: histories of up to 200 steps of two peers and a channel'],
   assumptions=['std::deque and std::string as documented', 'pushEncodeQueueRaw() adds an empty string to the queue']),
 'C06': dict(level='proof', budget=240, specs=[spec('darq.cpp', prove='darq_seq darq_decodeseq darq_decode darq_encode', native='darq_history darq_any', nsrc=PROT)],
   bounded=['that these steps together give one complete response per request, whatever is lost: native histories against a client as documented'],
   assumptions=['vector<string> and string as documented', 'the upper layer completes its response to a request before the next frame is decoded (REQ/REP)', 'a request has less than 2^27 - 1 parts', 'frames are lost or arrive correctly']),
 'C08': dict(level='proof', budget=300, specs=[spec('jrn.cpp', prove='jrn_keysize jrn_has jrn_any_changed jrn_seq jrn_update jrn_regenerate jrn_changed jrn_order jrn_iterate jrn_encode jrn_bump', native='jrn_history jrn_any', nsrc=PROT + [R + 'synchronizer.cpp'])],
   bounded=['decodeUpdates(), encodeUpdate(), encodeBuffer(), decodeBuffer() and clean(): native histories only'],
   assumptions=['std::vector<ObjectInfo> and std::sort() as documented', 'the search tree over n indices: every index is the pivot of exactly one range, and ranges are nested or disjoint', 'fewer than 2^63 periods and 2^32 objects']),
 'C09': dict(level='exploration', budget=300, specs=[spec('syn.cpp', native='syn_pair syn_forward syn_map syn_any syn_stale syn_late', nsrc=PROT + [R + 'synchronizer.cpp'])],
   bounded=['everything: histories of two or three peers, one to three stores of 40 or 300 bytes, up to 12 phases of 20 steps'],
   assumptions=['the channel is lossless and in order until it is reset; one side writes to a store at a time']),
 'C10': dict(level='proof', budget=240, specs=[
   spec('hex.cpp', prove='hex_fixed8 hex_fixed16 hex_fixed32 hex_fixed64 hex_fixedx hex_decode8 hex_decode16 hex_decode32 hex_decode64 hex_decodex hex_decode_long hex_blob_encode hex_blob_decode hex_blob_valid'),
   spec('dbg.cpp', native='dbg_value', nsrc=DBG, store=True, flags=['-I/verif/specs/cfg'])],
   bounded=['that process() passes the right value and object to the codec: native runs on the generated store only'],
   assumptions=['scratch pad initially empty (C13 covers the allocations)', 'little-endian host']),
 'C11': dict(level='exploration', budget=240, specs=[spec('dbg.cpp', native='dbg_history', nsrc=DBG, store=True, flags=['-I/verif/specs/cfg'])],
   bounded=['everything: histories of up to 40 requests on one or two stores against a reference model']),
 'C12': dict(level='proof', budget=400, specs=[spec('dir.cpp', prove='dir_any_tricky_short', both='dir_full_test_short dir_full_test_long dir_full_tricky_short dir_full_tricky_long', deep='dir_any_test_short dir_any_test_long dir_any_tricky_long', native='dir_abbrev dir_list dir_store', nsrc=[R + 'directory.cpp'] + UTIL, store=True, flags=['-I/verif/specs/cfg'])],
   bounded=['which abbreviations are found, and that a name that contradicts an object does not give it: search against a reference model', 'list(): native runs, exhaustive for the two stores apart from the prefix'],
   assumptions=['directories of two stores: tests/TestStore.st and specs/VfDir.st']),
 'C13': dict(level='proof', budget=400, specs=[spec('spm.cpp', prove='spm_alloc16 spm_alloc8 spm_alloc32_1 spm_alloc32_2 spm_alloc32_8 spm_alloc32_1a spm_rollback16 spm_rollback32 spm_other16 spm_other32 spm_moved', native='spm_history16 spm_history8 spm_history32')],
             assumptions=['scratch pads with at most 3 chunks at the start of the operation (sizes, counters and contents arbitrary)', 'reserve() is called with at most maxSize bytes', 'malloc() succeeds']),
 'C14': dict(level='proof', budget=300, specs=[spec('fifo.cpp', prove=' '.join('fifo_%s_%s' % (a, b) for a in ('push', 'pop', 'clear') for b in ('u8_1', 'u32_7', 'u16_255', 'u8_64k')) + ' fifo_push_e3_30 fifo_pop_e3_30'
              + ' fifo_pushn_u8_1 fifo_pushn_u8_3 fifo_upush_u8 fifo_upush_u32 fifo_upop_u8 fifo_upop_u32 msg_push_8 msg_space_8 msg_pop_8 msg_pop_32 msg_space_300 msg_pop_300',
              deep='msg_append_8 msg_push_300 msg_append_300 fifo_push_u64_1k fifo_pop_u64_1k fifo_clear_u64_1k fifo_clear_e3_30 fifo_pushn_u32_7', native='fifo_h_u8_1 fifo_h_e3_7 fifo_h_u16_254 fifo_h_u8_255 fifo_h_u32_300 fifo_h_u64_0 fifo_h_e3_0 msg_h_8 msg_h_32 msg_h_255 msg_h_0 fifo_loopback', nsrc=PROT)],
             bounded=['unbounded MessageFifo, FifoLoopback, iterators and push of ranges: native histories only', 'push_back(array) on bounded FIFOs: all lengths, for capacities 1, 3 and 7'],
             assumptions=['capacities as instantiated: Fifo 1, 7, 30, 255, 1000, 65534 and unbounded; MessageFifo 8, 32, 300 bytes with 2 or 3 messages', 'sequential use (see C18)', 'unbounded FIFOs of at most 2^40 elements']),
 'C15': dict(level='proof', budget=300, specs=[
   spec('val.cpp', both='val_variable val_variable_nohooks val_variant val_blob val_string_set val_string_get val_copy_fixed val_copy_string val_function', native='val_store', nsrc=UTIL, store=True),
   spec('val_be.cpp', both='val_variable val_variant val_blob val_copy_fixed val_function', nsrc=UTIL, store=True, flags=['-I/verif/specs/cfg_be'])],
   bounded=['that the generated objects of a store do not overlap and are reached by name: native histories on tests/TestStore.st'],
   assumptions=['strncmp() of the C library as documented', 'sizes of blobs and strings below 2^40', 'little-endian host']),
 'C17': dict(level='proof', budget=240, specs=[spec('cmp.cpp', prove='cmp_encode cmp_decode', native='cmp_history cmp_any', nsrc=PROT + [R + 'compress.cpp', '-lheatshrink_dynalloc'], flags=['-DSTORED_HAVE_HEATSHRINK=1', '-I/usr/include/heatshrink'])],
   bounded=['that the heatshrink codec itself is lossless and safe: sequences of up to 12 messages of up to 2 kB in up to 4 parts, and up to 6 frames of any bytes'],
   assumptions=['heatshrink: sink, poll, finish and reset as documented (a binary library)', 'std::vector<uint8_t> as documented', 'messages below 2^40 bytes']),
 'C16': dict(level='proof', budget=300, fuzz=6, specs=[spec('util.cpp', both='sat_i8 sat_u8 sat_i16 sat_u16 sat_i32 sat_u32 sat_i64 sat_u64 sat_float sat_double sat_bool endian swap_endian_buffer memcpy_swap memcmp_swap strncmp strncpy string_literal')]),
}
