"""Source of properties.jsonl (python3 lib/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": hook}})

p("C01", "The receiver acknowledges its true decoder state",
  "Every acknowledgement the Salsify receiver sends names, as its current state, the identity of exactly the decoder state that results from the frames and partial frames it has applied so far. It lists a state as complete only after a fully received frame was decoded and produced exactly the state the sender announced for that frame. The initial state is never listed.",
  ["schedules", "histories", "fault_sequences"],
  "all sequences of packets (loss, duplication, reordering, interleaved frames, frames built on a state the receiver does not have)",
  "No test runs the receiver at all: the tests cover the arithmetic coder and state serialization only.",
  ["src/salsify/salsify-receiver.cc", "src/decoder/player.cc", "src/decoder/decoder.cc"],
  [("current_state is recomputed from the decoder after every applied frame and partial frame", "salsify-receiver.cc main(), packet callback"),
   ("saved only when current_state == target_state", "salsify-receiver.cc main()")],
  [("current_state", "identity of the decoder's state", "salsify-receiver.cc"), ("complete_states", "states advertised as restorable", "salsify-receiver.cc")],
  ["acknowledgement datagrams"])

p("C02", "Frames are applied in order, at most once, and every fresh packet is acked",
  "The receiver applies frames in increasing frame number, each at most once, whatever order packets arrive in; packets of frames it has finished or passed change nothing and are not acknowledged. A frame is decoded from all its fragments once the last one is in; when a packet of a later frame arrives first, the unfinished frame's contiguous leading fragments are decoded and displayed and it is given up. Every other packet is acknowledged exactly once, echoing its frame and fragment number together with the smoothed inter-packet delay.",
  ["schedules", "fault_sequences"],
  "all arrival orders of the fragments of consecutive frames under loss, duplication and reordering",
  "The tests never deliver a packet; only enumeration of arrival orders reaches the frame-skipping and stale-packet paths.",
  ["src/salsify/salsify-receiver.cc", "src/net/packet.cc"],
  [("next_frame_no comparison, partial_frame() and erase", "salsify-receiver.cc main()"), ("display queue", "salsify-receiver.cc display_task, enqueue_frame"),
   ("AverageInterPacketDelay", "salsify-receiver.cc")],
  [("next_frame_no", "lowest frame number still of interest", "salsify-receiver.cc"), ("fragmented_frames", "the frame being assembled", "salsify-receiver.cc")],
  ["acknowledgement datagrams", "frames drawn on the display"])

p("C03", "Advertised decoder states stay restorable",
  "Whenever a fully received frame names as its source a state that the receiver's latest acknowledgement listed as complete (or the initial state), the receiver decodes it from exactly that state and reaches the announced target, no matter what it decoded in between. A state reached exactly as announced by a fully received frame is listed from then on; listed states are dropped, oldest first, exactly when a frame based on a newer listed state has been applied; whatever remains listed remains usable, including a state that was reached, and listed, more than once.",
  ["histories", "fault_sequences"],
  "all histories of frames (complete, partial, unusable) and all choices of source state among the advertised ones, including states reached more than once",
  "Needs multi-step histories with returns to old states; no test keeps more than one decoder.",
  ["src/salsify/salsify-receiver.cc", "src/decoder/player.hh"],
  [("set_decoder() from the saved decoders", "salsify-receiver.cc main()"), ("pruning loop over complete_states", "salsify-receiver.cc main()")],
  [("decoders", "saved decoder per state identity", "salsify-receiver.cc")], ["acknowledgement datagrams"])

p("C04", "The sender encodes from a state it believes the receiver has",
  "Every frame the Salsify sender emits decodes, from the state it names as source, to the state it names as target. The source is the target of the previously sent frame, unless the newest acknowledgement reports a state the sender does not know: from that moment and for five seconds, every frame is based on the newest state that acknowledgement listed as complete if the sender still holds it, and otherwise on the initial state (a key frame). The first frame is based on the initial state.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of encoding, sending and acknowledgement arrival, all acknowledgement contents a receiver can produce, all times",
  "No test runs the sender; the choice depends on histories of acknowledgements and on time.",
  ["src/salsify/salsify-sender.cc"],
  [("encoder selection logic", "salsify-sender.cc main(), encode_start callback"), ("conservative_until", "salsify-sender.cc main()")],
  [("encoders", "encoder per state identity", "salsify-sender.cc"), ("receiver_assumed_state", "target of the last frame sent", "salsify-sender.cc"),
   ("receiver_last_acked_state / receiver_complete_states", "newest acknowledgement", "salsify-sender.cc")],
  ["outgoing packets"])

p("C05", "The sender survives any acknowledgement history and keeps its rate rules",
  "Acknowledgements of another session and acknowledgements older than the newest one seen have no effect, and no acknowledgement a correct receiver can produce stops the sender. Frames are numbered consecutively from zero and every packet carries the right fragment counts; the first packet of a frame also carries the time since the previous frame was sent. The two encodings of a captured frame are 17 quantizer steps finer and 23 steps coarser than the one last sent, kept within 3 to 127. Of the two encodings of each captured frame the largest that fits the capacity implied by the newest acknowledgement is sent; if none fits the frame is skipped, but never more than three in a row, after which the smaller-quality encoding is sent anyway.",
  ["schedules", "histories"],
  "all acknowledgement histories (delayed, reordered, duplicated, foreign) and capacity values, in the s1, s2 and conventional modes",
  "No test runs the sender.",
  ["src/salsify/salsify-sender.cc"],
  [("ack_seq_no and the comparison with last_acked", "salsify-sender.cc"), ("cleanup of stored encoders", "salsify-sender.cc main()"),
   ("target_size and choice of the best output", "salsify-sender.cc"), ("MAX_SKIPPED", "salsify-sender.cc")],
  [("cumulative_fpf", "fragments sent up to each frame", "salsify-sender.cc"), ("skipped_count", "frames skipped in a row", "salsify-sender.cc")],
  ["outgoing packets"])

p("C06", "Sender and receiver agree on pictures and recover from any loss",
  "With a sender and a receiver connected by a network that loses, repeats and reorders packets and acknowledgements, whenever the receiver finishes a frame in the state announced for it, the picture it displays is the sender's own reconstruction of that frame. Once the network delivers everything again, the receiver returns to states the sender recognises once two frames that change something have been sent, and stays there (a frame that changes nothing may leave it in an older state the sender recognises); neither side stops.",
  ["schedules", "fault_sequences", "histories"],
  "all loss, duplication and reordering schedules of both directions",
  "There is no end-to-end test; recovery needs particular loss patterns followed by good delivery.",
  ["src/salsify/salsify-sender.cc", "src/salsify/salsify-receiver.cc", "src/net/packet.cc", "src/encoder/encoder.cc", "src/decoder/decoder.cc"],
  [("state identities in packets and acknowledgements", "packet.hh"), ("conservative mode", "salsify-sender.cc"), ("saved decoders", "salsify-receiver.cc")],
  [], ["outgoing packets", "acknowledgement datagrams", "frames drawn on the display"])

p("C07", "Packets, acknowledgements and split frames survive the wire",
  "A frame split into packets of at most 1400 payload bytes is rebuilt byte for byte from its packets in any order and with any repetition, is complete exactly when every fragment has arrived, and before that yields exactly its contiguous leading fragments. Packets and acknowledgements parse back to the fields they were built from, at fixed little-endian positions. Datagrams that are too short, carry impossible fragment numbers or counts, or disagree with the frame being rebuilt are rejected without changing it.",
  ["inputs", "schedules"],
  "all frame sizes, all field values, all arrival orders with repetition, all truncations",
  "No test touches the network code.",
  ["src/net/packet.cc", "src/net/packet.hh", "src/util/chunk.hh"],
  [("Packet / AckPacket (de)serialization", "packet.cc"), ("FragmentedFrame::sanity_check, add_packet, partial_frame", "packet.cc")],
  [("fragments_, remaining_fragments_", "arrived fragments", "packet.hh")], ["return values of the calls"])

p("C08", "Packets leave in order and paced; the event loop serves the ready, wanted events",
  "Packets queued for sending leave in the order queued, none lost or repeated: one queued into an empty queue is due at once, any other the given delay after the due time of the packet queued before it. One turn of the event loop calls the handlers whose descriptors are ready and wanted, in registration order, once each; it ends the loop on a handler's request, on a descriptor error or when nothing is wanted, never calls a cancelled handler or a reader whose input has ended again, and refuses a handler that neither reads nor writes its descriptor.",
  ["schedules", "inputs"],
  "all sequences of queueing, time advance and sending; all combinations of descriptor readiness, interest and handler results",
  "No test touches the pacer or the event loop.",
  ["src/net/pacer.hh", "src/net/poller.cc", "src/net/poller.hh", "src/util/file_descriptor.hh"],
  [("Pacer::push / ms_until_due / pop", "pacer.hh"), ("Poller::poll", "poller.cc")],
  [("queue_", "packets with due times", "pacer.hh"), ("actions_", "registered handlers", "poller.hh")], ["calls and callbacks"])

p("C09", "Decoded pictures are exactly those the VP8 format defines",
  "For every well-formed VP8 frame and every decoder state, the decoded picture equals, sample for sample, what the VP8 bitstream format prescribes: header fields, modes, motion vectors and coefficients as coded, intra and inter prediction, inverse transforms and loop filter as specified. Frames marked hidden update the state but are not shown.",
  ["inputs", "histories"],
  "all bitstreams within the supported profile (version 0, no scaling), all dimensions, all earlier frames",
  "The conformance vectors need the network and are not available; no available test decodes a single frame.",
  ["src/decoder/frame.cc", "src/decoder/macroblock.cc", "src/decoder/tokens.cc", "src/decoder/prediction.cc", "src/decoder/transform.cc", "src/decoder/loopfilter.cc", "src/decoder/quantization.cc", "src/decoder/bool_decoder.hh", "src/decoder/modemv_data.cc", "src/decoder/safe_raster.cc"],
  [("header, mode, motion vector and token parsing", "frame_header.hh, macroblock.cc, tokens.cc, tree.cc"), ("intra/inter prediction, idct/iwht, loop filter (C++ and assembly)", "prediction.cc, transform.cc, loopfilter.cc, *.asm")],
  [], ["decoded rasters"])

p("C10", "Decoder memory evolves exactly as frame headers say",
  "After every frame the last, golden and alternate reference pictures, the saved entropy probabilities, the segment map and segment parameters and the loop-filter adjustments are those the headers of all frames so far prescribe: key frames reset them and replace all three references; refresh and copy flags (the alternate picture is copied first, and then the golden one, which may copy the alternate picture just chosen) and sign biases act as coded; probabilities changed by a frame that does not save them last for that frame only.",
  ["histories", "inputs"],
  "all sequences of frames with all combinations of header flags",
  "No test decodes frames; persistence bugs show only in sequences of at least two frames with particular flags.",
  ["src/decoder/decoder_state.hh", "src/decoder/frame.cc", "src/decoder/decoder.cc", "src/decoder/probability_tables.cc", "src/decoder/frame_header.hh"],
  [("copy_to", "frame.cc"), ("parse_and_apply", "decoder_state.hh"), ("ProbabilityTables::update / coeff_prob_update", "probability_tables.cc"), ("update_segmentation", "frame.cc")],
  [("DecoderState", "probabilities, segmentation, filter adjustments", "decoder.hh"), ("References", "last, golden, alternative", "decoder.hh")],
  ["get_state(), get_references(), rasters"])

p("C11", "Decoding is a pure function of state and frame",
  "Decoding the same frame from equal decoder states gives equal pictures and equal states, on any thread and however buffers were used before; copies of a decoder or encoder evolve independently, and a picture once handed out never changes. Decoder states that differ in dimensions, probabilities, segmentation, loop-filter adjustments or any reference picture compare unequal and have different identities; equal ones have equal identities.",
  ["histories", "schedules"],
  "all interleavings of decoding, copying, restoring and dropping decoders and pictures, on one or several threads",
  "Tests compare serialized states of random contents; they never fork decoders, reuse buffers or run threads.",
  ["src/decoder/decoder.cc", "src/decoder/raster_handle.cc", "src/decoder/frame_pool.cc", "src/decoder/probability_tables.cc", "src/util/raster.cc"],
  [("state passed and copied explicitly", "decoder.hh"), ("raster pool and frame pool under a lock, hash cached per raster", "raster_handle.cc, frame_pool.cc"), ("operator==, hash()", "decoder.cc, raster.cc, probability_tables.cc")],
  [("hash cache", "identity of a raster", "raster_handle.hh")], ["rasters, ==, get_hash(), minihash()"])

p("C12", "The encoder's own state is the decoder's state after its output",
  "After every frame any encoding mode produces, the decoder state the encoder exports (and its identity) is exactly the state a decoder reaches by decoding that frame from the encoder's previous state, and the output is a valid frame. A new encoder emits a key frame; one built from a decoder state continues from that state. Estimating sizes or encoding on a copy leaves the original encoder unchanged.",
  ["inputs", "histories", "configurations"],
  "all input pictures and sizes, all modes (constant quantizer, minimum SSIM, target size, re-encoding), both quality settings, one and two passes, all forks",
  "The encoder tests need network-fetched vectors; nothing available encodes a frame.",
  ["src/encoder/encoder.cc", "src/encoder/encode_inter.cc", "src/encoder/encode_intra.cc", "src/encoder/reencode.cc", "src/encoder/serializer.cc", "src/encoder/size_estimation.cc"],
  [("write_frame / update_decoder_state", "encoder.cc"), ("export_decoder, minihash", "encoder.hh"), ("loop filter and reference update inside the encoder", "encoder.cc, encode_*.cc")],
  [("decoder_state_, references_", "the encoder's picture of its decoder", "encoder.hh")], ["encoded frames, export_decoder(), minihash()"])

p("C13", "A parsed frame serializes back to the same frame",
  "Any valid frame parsed by the decoder and serialized again with the probabilities in force decodes to the same picture and state from the same decoder state, keeping every header field, mode, motion vector and coefficient and the number of coefficient partitions. Frames that a canonical coder produced come back byte for byte.",
  ["inputs"], "all valid frames in all decoder states",
  "The round-trip test needs network-fetched vectors.",
  ["src/encoder/serializer.cc", "src/encoder/encode_tree.cc", "src/decoder/frame.cc", "src/decoder/tokens.cc", "src/decoder/frame_header.hh"],
  [("Frame::serialize", "serializer.cc"), ("parsing", "decoder/*.cc")], [], ["serialized bytes, rasters, states"])

p("C14", "The arithmetic coder is lossless for every sequence of coded symbols",
  "Whatever sequence of bits, with whatever probability for each, is written by the arithmetic coder is read back identically, and the bytes written are exactly those the VP8 coder definition prescribes for that sequence; reading past the end of the data yields what zero bytes would. Every value of every coded tree, literal, signed literal and motion-vector component survives.",
  ["inputs"], "all sequences of (probability, bit) including extreme probabilities and long carry chains, all tree values, all motion vectors",
  "The existing test samples random sequences and one tree; carry propagation through runs of 255 bytes and the end of data are not aimed at.",
  ["src/encoder/bool_encoder.hh", "src/decoder/bool_decoder.hh", "src/encoder/encode_tree.cc", "src/decoder/tree.cc", "src/encoder/serializer.cc", "src/decoder/macroblock.cc"],
  [("BoolEncoder::put / add_one_to_output / finish", "bool_encoder.hh"), ("BoolDecoder::get / load_octet", "bool_decoder.hh")],
  [], ["encoded bytes, decoded bits"])

p("C15", "A saved decoder state restores to the same state",
  "Writing any decoder state (of the kind chunked encoding saves, whose three references coincide) and reading it back gives a state that is equal, has the same identity and decodes every later frame identically; the file layout is self-consistent, so that writing the restored state gives the same bytes. Saved states with wrong tags or cut short are not silently taken for another state.",
  ["inputs", "crash_points"], "all decoder states reachable by decoding, all dimensions, all truncation points of the file",
  "serdes.test compares random contents with ==; it does not decode from restored states, check identities, or read damaged files.",
  ["src/decoder/enc_state_serializer.hh", "src/decoder/decoder.cc", "src/decoder/probability_tables.cc", "src/decoder/player.cc"],
  [("serialize / deserialize of Decoder, DecoderState, References, Segmentation, FilterAdjustments, ProbabilityTables", "decoder.cc, probability_tables.cc")],
  [], ["files, ==, get_hash(), decoded rasters"])

p("C16", "IVF files hold exactly the frames appended, at every moment",
  "From the moment the writer has been constructed, at every point of writing, including after a crash between any two system calls, an IVF file opens with exactly a prefix of the frames appended so far, byte for byte, and with the dimensions, rate, scale, format and expected state identity given. Files with a wrong signature, version or header length are rejected when opened; a frame that runs past the end of the file is rejected at the latest when it is read.",
  ["crash_points", "inputs"], "all sequences of appended frames, all crash points, all header damage",
  "No available test writes an IVF file.",
  ["src/util/ivf_writer.cc", "src/util/ivf.cc", "src/util/file.cc", "src/util/mmap_region.cc"],
  [("append: frame bytes first, then the count in the header", "ivf_writer.cc"), ("validation in the constructor", "ivf.cc")],
  [("frame_count_, file_size_", "what the header says", "ivf_writer.hh")], ["file contents after each system call, IVF accessors"])

p("C17", "Damaged frames are rejected cleanly or concealed, never mistaken",
  "Without error concealment, a frame that is truncated in its header, first partition or partition table, has an unsupported version, a wrong start code or other dimensions than the decoder is rejected with an error and never yields a picture. With error concealment, any prefix of a valid frame is decoded to a picture of the right size: what is there of its header, macroblock modes and coefficients is used, missing bytes read as zeros, and the macroblocks of an interframe whose prediction information is missing repeat the last picture. It is refused only if a header that is cut short, completed with zeros, asks for something unsupported; frames with an unsupported version and key frames with a wrong start code or wrong dimensions are still refused. Neither ever crashes, and the decoder can go on decoding from a key frame as if nothing had happened.",
  ["inputs", "fault_sequences"], "all truncation points and header damages of all frames, in both settings",
  "No available test decodes damaged input.",
  ["src/decoder/uncompressed_chunk.cc", "src/decoder/decoder_state.hh", "src/decoder/bool_decoder.hh", "src/decoder/macroblock.cc", "src/util/chunk.hh"],
  [("UncompressedChunk constructor", "uncompressed_chunk.cc"), ("error concealment in parse_macroblock_headers / parse_tokens", "frame.cc, macroblock.cc")],
  [("corruption level", "what is missing from the frame", "uncompressed_chunk.hh")], ["exceptions, rasters"])

p("C18", "The encoder honours the requested quantizer, size and quality",
  "A frame encoded with a given quantizer carries exactly that quantizer index. A frame encoded for a target size uses the finest quantizer of the allowed range (4 to 127; in real-time quality also within 16 of the last one used) whose estimated size fits while the next finer one's does not, and the coarsest one when none fits. Minimum-quality encoding reaches the requested SSIM whenever the finest quantizer does, with a quantizer whose next coarser neighbour does not reach it. The quality measure is the mean SSIM of the luma pictures by its definition, 1 for equal pictures.",
  ["inputs", "histories"], "all pictures, quantizers, target sizes and SSIM values",
  "The SSIM test needs network-fetched vectors.",
  ["src/encoder/encoder.cc", "src/encoder/size_estimation.cc", "src/util/ssim.cc"],
  [("encode_with_quantizer / encode_with_target_size / encode_with_minimum_ssim", "encoder.cc")], [], ["encoded frames"])

p("C19", "Chunks of video encoded and edited separately join into one decodable video",
  "A video cut into chunks that are encoded, terminated, re-encoded from the previous chunk's saved end state and concatenated with the tools decodes as one continuous video, with every displayed frame accounted for. Each tool that decodes refuses a chunk whose expected starting state is not the state given; a dumped state is the one after the chosen frame (saved with its last reference standing for all three, which is exact after a terminated or re-encoded chunk); terminating a chunk changes only which references its last frame refreshes; merging keeps the first chunk's expected starting state and every frame byte for byte; re-encoding makes one frame per model frame, keeps later key frames as they are and says which state it continues from.",
  ["histories", "configurations", "inputs"], "all sequences of tool runs over chunks, including mismatched states",
  "Tool tests need network-fetched vectors.",
  ["src/frontend/xc-enc.cc", "src/frontend/xc-dump.cc", "src/frontend/xc-merge.cc", "src/frontend/xc-terminate-chunk.cc", "src/frontend/decode-bundle.cc", "src/frontend/xc-diff.cc", "src/frontend/xc-framesize.cc", "src/frontend/vp8decode.cc", "src/encoder/reencode.cc", "src/decoder/player.cc"],
  [("expected decoder minihash in the IVF header", "ivf_writer.cc, player.cc, tools"), ("reencode", "reencode.cc")], [], ["files and exit codes of the tools"])

p("C20", "Raw video is read and written exactly",
  "Reading a YUV4MPEG file yields each frame's samples exactly, with the area beyond the picture filled by repeating its edge, in order and once each, and stops at the end; writing a picture emits exactly its displayed area. Wrong magic, unsupported formats (anything but 8-bit 4:2:0), missing or oversized dimensions, wrong frame markers and short frames are errors, not frames; a frame marker cut off by the end of the file is never a frame.",
  ["inputs"], "all dimensions (including ones not multiples of 16, and odd ones), header variants and truncation points",
  "No test reads raw video.",
  ["src/input/yuv4mpeg.cc", "src/util/raster.cc", "src/input/ivf_reader.cc", "src/util/file_descriptor.hh"],
  [("YUV4MPEGReader / YUV4MPEGFrameWriter", "yuv4mpeg.cc"), ("edge_extend", "yuv4mpeg.cc"), ("display_rectangle_as_planar", "raster.cc")], [], ["rasters, output bytes"])

p("C21", "The camera's bytes become the pictures it took, in order",
  "Whatever the speed at which a capture device fills its buffers and the program asks for pictures, each picture given is exactly what one filled buffer holds (NV12, YUYV with every second row of colour, YU12, or a 4:2:2 JPEG with every second row of colour, whose very first picture may be anything), for every even size; pictures come in the order they were taken, no buffer is read after it was handed back, lost or handed back twice, and capturing stops with the camera. A device that cannot capture, does not take the format or size asked for or grants too few buffers, and a JPEG of another size or sampling, are errors, not pictures.",
  ["schedules", "inputs", "configurations"], "all interleavings of frames arriving and being asked for, all formats and even sizes",
  "No test touches the camera; none can without a device.",
  ["src/input/camera.cc", "src/input/jpeg.cc", "src/util/mmap_region.cc"],
  [("Camera::get_next_frame", "camera.cc"), ("JPEGDecompresser", "jpeg.cc")], [], ["pictures, buffers held by the device"])

p("C22", "What the tools report about files is what the files contain",
  "For every video, xc-dissect describes each frame (or the one asked for), in order: its kind, length and visibility, the values its header codes, and, as asked, every probability it updates and every macroblock's modes, vector, reference and coefficients, continuing from a given state as a decoder would; it warns exactly when the video expects another state. xc-ssim prints, for each pair of shown pictures in order until the shorter video ends, the structural similarity of the luma or of all planes, reading IVF unless told otherwise. xc-diff names exactly the parts in which two saved states differ, and nothing for equal ones; comp-states prints how many bits of two saved states differ and, unless none do, in what share of samples the last pictures differ and by how much on average.",
  ["inputs"], "all frames and headers, all pairs of states and videos of the same size",
  "No test runs these tools.",
  ["src/frontend/xc-dissect.cc", "src/frontend/xc-ssim.cc", "src/frontend/xc-diff.cc", "src/frontend/comp-states.cc", "src/util/ssim.cc", "src/decoder/frame.hh", "src/decoder/macroblock.hh"],
  [("print_frame_info", "xc-dissect.cc"), ("main", "xc-ssim.cc, xc-diff.cc, comp-states.cc"), ("ssim", "ssim.cc")], [], ["printed reports and exit codes"])

p("C23", "Played raw video comes out whole and on time",
  "Playing a raw video as a camera would take it gives one header saying F<rate>:1, then every picture exactly and once each, in order, picture k begun never before k/rate seconds (counted in whole microseconds per picture) after the start, and no later than due unless the reader of the output or the source was slow: then as soon as it can be, without losing pictures and catching up with the schedule, which counts from the start. A wrong rate, file or picture is an error after the pictures before it; a file without pictures gives nothing.",
  ["inputs", "schedules"], "all files, rates, and patterns of slow readers, partial writes and interrupted or overlong sleeps",
  "No test runs the program, and real time cannot be sampled exactly.",
  ["src/salsify/fake-webcam.cc", "src/input/yuv4mpeg.cc", "src/util/file_descriptor.hh"],
  [("main", "fake-webcam.cc")], [], ["bytes on standard output and when"])

p("C24", "A datagram arrives whole, from whom sent it, or is an error",
  "Receiving a datagram gives all its bytes, the address it came from and the time the kernel took it in (in microseconds, if times were asked for), or throws: one cut short, or flagged in any way, is never handed over. Sending gives the kernel exactly the bytes and the address, and throws unless all were taken. Reads and writes are counted exactly when they succeed. An address made from numbers and made into text again is the same one, IPv4 ones shown as IPv4; addresses are equal exactly when address and port are, whichever is asked. A descriptor is closed exactly once, by its last holder, however it was handed on.",
  ["inputs", "histories", "fault_sequences"], "all payloads, addresses, flags, control messages, partial sends, and histories of connecting, sending, receiving and handing on",
  "Tests do not use the network or make the kernel misbehave.",
  ["src/net/socket.cc", "src/net/address.cc", "src/util/file_descriptor.hh"],
  [("UDPSocket::recv / sendto / send", "socket.cc"), ("Address::ip_port / operator==", "address.cc"), ("FileDescriptor move and destructor", "file_descriptor.hh")], [], ["datagrams, addresses, closes"])

p("C25", "A part of bytes is exactly that part, and a value is there once or not at all",
  "Taking part of a byte string by offset and length gives exactly those bytes when they lie inside and throws otherwise, whatever the 64-bit numbers; numbers of 1 to 8 bytes are read little-endian, and bit fields of up to 63 bits within the first 8 bytes are read lowest bit first, or throw when bytes are missing. A value that may be missing is there exactly when one was put in and not taken out: through every history of constructing, copying, moving, assigning (also to itself), filling, clearing and copies that throw, each object is destroyed exactly once and never used afterwards, and comparing says whether both are missing or hold equal values.",
  ["inputs", "histories", "fault_sequences"], "all strings, offsets and lengths; all histories of operations on holders, including failing copies",
  "Tests use these only through video decoding, with values that lie inside.",
  ["src/util/chunk.hh", "src/util/optional.hh"],
  [("Chunk::operator()", "chunk.hh"), ("Chunk::bits, le16, le32, le64", "chunk.hh"), ("Optional", "optional.hh")], [], ["bytes, exceptions, object lifetimes"])

if __name__ == "__main__":
    for x in P:
        print(json.dumps(x))
