#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = "none"
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CF = "src/CheckedFile.cpp"; IF = "src/ImageFileImpl.cpp"; WR = "src/CompressedVectorWriterImpl.cpp"
RD = "src/CompressedVectorReaderImpl.cpp"; EN = "src/Encoder.cpp"; DE = "src/Decoder.cpp"
PK = "src/Packet.cpp"; SB = "src/SourceDestBufferImpl.cpp"; BL = "src/BlobNodeImpl.cpp"
XP = "src/E57XmlParser.cpp"; ST = "src/StructureNodeImpl.cpp"; CV = "src/CompressedVectorNodeImpl.cpp"
SW = "src/WriterImpl.cpp"; SR = "src/ReaderImpl.cpp"

prop("C01", "A file that was closed without error reads back exactly what was written",
  "After any sequence of writing calls that ends in a close that reports no error, opening the file again yields the same tree: every element with its name, order, type, value, bounds, precision, scale and offset, every registered extension, every blob byte and every record of every compressed vector in order. Floating point values come back exactly (tree elements as the same finite number, record fields bit for bit), whatever memory types, strides, batch sizes and buffer changes were used to write them.",
  ["histories", "inputs", "programs"],
  "all write sessions: any tree shape and element types, any prototype, any split of records into write calls, any interleaving of element creation, blob writes, record writers and read-back before the close",
  "The tests write a few fixed layouts with one memory type each and mostly check only that nothing throws; bit widths, packet boundaries, string prefixes and session orders are unbounded.",
  [IF, WR, EN, DE, RD, ST, XP, SB, CF],
  [("page-based append and patch-back writing", "CheckedFile::write/extend"), ("bytestream encoding and packetisation", "CompressedVectorWriterImpl::write/packetWrite, Bitpack*Encoder"), ("XML section written at close and parsed at open", "*NodeImpl::writeXml, E57XmlParser")],
  ["element values and record buffers returned by a reader of the closed file"])

prop("C02", "A failed disk operation while writing is never silently swallowed",
  "If any disk operation fails, transfers fewer bytes than asked or finds the disk full during a writing session, then either some call up to and including the close of the file reports an exception, or the finished file reads back exactly as if no fault had happened. A close that reports success therefore always means a complete and correct file.",
  ["fault_sequences", "histories"],
  "every position in the stream of disk operations x {I/O error, short write, interrupted call, disk full from there on, failing seek, failing read of a page being updated, failing close}, single faults and sequences, in every kind of writing session",
  "No test injects a disk error; the set of (operation index, fault kind) pairs of one small session already numbers thousands.",
  [CF, IF, WR, BL],
  [("every physical page write checked", "CheckedFile::writePhysicalPage"), ("seek, read-modify-write and close results checked", "CheckedFile::lseek64/readPhysicalPage/close"), ("errors propagate out of close", "ImageFileImpl::close")],
  ["exceptions from write, close; content of the file on the simulated disk afterwards"])

prop("C03", "A crash while writing never leaves a file that opens with wrong content",
  "If the writing process dies at any instant, so that the file holds the effects of a prefix of its disk writes with the last one possibly torn, a later open either fails with an exception or gives exactly the content of the completed session. Starting a new writing session over the leftover file produces the same bytes as writing to a fresh path.",
  ["crash_points", "histories"],
  "every crash point (between any two disk operations and inside any write at any byte) of every writing session, including re-running the session over the leftover",
  "Tests never kill a writer; crash points multiply with every disk write of every session shape.",
  [IF, CF],
  [("file header written last, after everything else", "ImageFileImpl::close"), ("header carries file length and XML location", "ImageFileImpl::readFileHeader"), ("truncate on open for writing", "CheckedFile::CheckedFile (Write)")],
  ["outcome of opening and fully reading the crashed image"])

prop("C04", "Corruption of stored bytes is detected, never returned as data",
  "With checksums fully enabled (the default), if stored bytes of a finished file are altered by bit flips, garbage bursts, zeroed or overwritten pages or truncation, then every open, element query, record read and blob read either returns exactly the original content or reports an exception. This holds for file and memory-buffer input alike.",
  ["fault_sequences", "inputs"],
  "any file, any set of damaged pages (page contents replaced by bytes that are not a valid page), any position including the checksum bytes, any read pattern",
  "The tests read one pre-made corrupt file; the damage positions and read patterns are unbounded.",
  [CF],
  [("CRC-32C per 1024-byte page verified on every page read", "CheckedFile::read, verifyChecksum"), ("file length check", "ImageFileImpl::readFileHeader")],
  ["data and exceptions delivered to the reading caller"])

prop("C05", "Disk faults while reading surface as errors and never as wrong data",
  "If a disk operation fails, is interrupted or comes up short while a file is being opened or read, the call in progress reports an exception or still delivers the correct data. Apart from the reader that failed, every later query, blob read or new reader, on the same handle or a new one, delivers the correct data or an exception and, once the fault has cleared, the full correct content; reading never modifies the file.",
  ["fault_sequences", "histories"],
  "every position in the stream of disk operations of any reading session x {I/O error, short read, premature end of file, interruption, failing seek, failing close}, transient or permanent, including continued use of the same file handle",
  "No test injects a read error or looks at what the reader does after one.",
  [CF, RD, PK, IF],
  [("page read result checked", "CheckedFile::readPhysicalPage"), ("packet cache entry only valid after verification", "PacketReadCache::readPacket")],
  ["data and exceptions of every reading call, file bytes after the session"])

prop("C06", "An abandoned writing session leaves no file; readers never alter one",
  "If a writing session is cancelled, or its handle is destroyed without close, at any point of its history (including after a failed call or a failed close), no file remains at its path as long as the system lets it be removed. Cancelling, closing or destroying a handle opened for reading never removes or changes the file, and neither call reports an error when repeated.",
  ["histories", "fault_sequences", "crash_points"],
  "every abandonment point of every writing session, with and without earlier disk faults; every reading session",
  "The tests only look at sessions that end in close.",
  [IF, CF],
  [("cancel closes and removes the file", "ImageFileImpl::cancel, CheckedFile::unlink"), ("destruction without close cancels", "ImageFileImpl::~ImageFileImpl")],
  ["directory entries and bytes of the simulated disk after the handle is gone"])

prop("C07", "Every file handle and allocation is released exactly once on every path",
  "After all objects of a session are gone, whether it succeeded, was abandoned or failed anywhere with an exception, each file descriptor the library opened has been closed exactly once, no descriptor is used after its close, and no memory allocated by the library remains. The process can repeat such sessions indefinitely.",
  ["fault_sequences", "histories"],
  "all reading and writing sessions, with disk faults at any operation and malformed input files, with any order of destroying handles",
  "Descriptor and memory leaks on error paths do not make a test fail, and the error paths are not reached.",
  [CF, IF, RD, XP, BL],
  [("descriptor ownership", "CheckedFile ctor/close/dtor"), ("constructor failure clean-up", "ImageFileImpl::construct2, CompressedVectorReaderImpl ctor")],
  ["descriptor table of the simulated disk, count of live heap blocks"])

prop("C08", "Every successfully closed file is a structurally valid E57 file",
  "Any file whose writing session closed without error satisfies the format rules an independent reader depends on: header fields, page checksums, binary sections that lie inside the file without overlapping, packets that tile their section, declared lengths and offsets, record streams holding exactly the declared records, and well-formed namespaced XML. An independent decoder recovers from it exactly the written content.",
  ["histories", "inputs", "configurations"],
  "all write sessions and writer packet-size configurations, including sessions in which some calls were rejected or writers were left open",
  "Reading back with the same library hides symmetric mistakes; the tests have no independent decoder.",
  [IF, WR, BL, PK, CF],
  [("section headers patched at writer close", "CompressedVectorWriterImpl::close"), ("space allocation", "ImageFileImpl::allocateSpace"), ("packet layout", "CompressedVectorWriterImpl::packetWrite, packetWriteIndex")],
  ["bytes of the closed file"])

prop("C09", "Record reading is exact for every legal layout and every way of reading it",
  "For any legal file, whatever its section order, packet sizes, split of the record streams over packets, index and empty packets and XML formatting, readers return exactly the encoded records in order: each call fills the whole buffer until the end, then returns the remainder, then zero. The values do not depend on buffer capacity, chosen subset and order of fields, memory types, strides, buffer changes between calls, or element queries, blob reads and readers of other handles interleaved with it.",
  ["inputs", "schedules", "histories"],
  "all legal layouts produced by an independent encoder x all interleavings of record reads with element queries and blob reads on the handle and readers on other handles of the same file",
  "The library's own writer emits one packetisation only, and the tests read in one chunk; layouts and interleavings are unbounded.",
  [RD, DE, PK, SB, "src/DecodeChannel.cpp"],
  [("per-channel packet position and buffering", "CompressedVectorReaderImpl::read/feedPacketToDecoders"), ("decoder carry-over between packets and calls", "BitpackDecoder::inputProcess"), ("packet cache", "PacketReadCache")],
  ["values and counts delivered to destination buffers"])

prop("C10", "Malformed input fails cleanly: no crash, hang, overrun or runaway memory",
  "Opening and fully reading any byte sequence, including files with consistent checksums but inconsistent or hostile headers, packets, offsets, counts or XML, ends in bounded time and memory with either data or a library exception. It never reads or writes outside its buffers, aborts the process, loops forever, or reaches for other files or the network.",
  ["inputs", "fault_sequences"],
  "all byte contents, in particular valid files mutated at any structural field with page checksums recomputed, truncated or reordered pages, and unlucky survivors of a power loss, read from file or memory under every checksum policy",
  "The tests hold a handful of malformed files; the input space is unbounded.",
  [IF, XP, PK, RD, DE, BL, "src/SectionHeaders.cpp", CF],
  [("header, section, packet verification", "readFileHeader, CompressedVectorSectionHeader::verify, DataPacket::verify, IndexPacket::verify"), ("XML structure checks", "E57XmlParser")],
  ["sanitizer reports, exceptions, operation and time bounds, largest allocation"])

prop("C11", "Handle states and open reader/writer counts stay truthful in every call order",
  "In every sequence of opening, using, closing and destroying files, readers and writers, each call either takes effect or throws the documented exception: at most one record reader or writer open per file handle, no writing to a file opened for reading, no use of a closed handle, closing twice harmless. The reported open state and reader and writer counts always equal the number of readers and writers actually open.",
  ["histories", "schedules"],
  "all sequences of open, close, cancel, read, write, query and destroy calls over several handles of one or more files",
  "The tests follow the happy order only; call orders grow exponentially.",
  [IF, RD, WR, CV, "src/NodeImpl.cpp"],
  [("open flags and counts", "ImageFileImpl::incr/decrReaderCount, incr/decrWriterCount"), ("open checks", "checkImageFileOpen, checkReaderOpen, checkWriterOpen")],
  ["exceptions, isOpen, readerCount, writerCount after every call"])

prop("C12", "Sessions on different files never influence each other",
  "Any number of reading and writing sessions on distinct files in one process, run from different threads or interleaved call by call in one thread, each behave and finish exactly as if run alone, even when some of them fail. This includes the bytes of every file written.",
  ["schedules", "fault_sequences"],
  "all interleavings of the sessions at API-call and disk-operation granularity, with disk faults hitting some of the sessions",
  "The tests run one session at a time in one thread.",
  [IF, CF, XP],
  [("per-file state only", "ImageFileImpl members"), ("XML parser initialisation is reference counted", "E57XmlParser::init/~E57XmlParser")],
  ["results and file bytes of each session compared with its solo run"])

prop("C13", "Reading from a memory buffer behaves exactly like reading from the file",
  "For any bytes, legal or damaged, and any reading history, opening them from memory gives the same content and record data as opening a file with those bytes, and an error exactly where the file gives one. The buffer is never written to and never read outside its stated size.",
  ["inputs", "histories", "configurations"],
  "all contents x checksum policies x reading histories",
  "One test opens one small valid file from memory.",
  [CF, IF],
  [("buffer view behind the same page reader", "CheckedFile buffer constructor, BufferView")],
  ["paired results of file and buffer sessions"])

prop("C14", "A blob behaves as a zero-filled byte array under any reads and writes",
  "A blob of any size holds at every moment, within the writing session and after reopening, exactly the bytes last written at each position and zero where nothing was written, for every order, overlap, alignment and size of partial writes and reads and whatever other elements are created or written in between. Accesses outside the blob are refused without any effect.",
  ["histories", "inputs"],
  "all sequences of partial reads and writes over several blobs, interleaved with other writing, at all page alignments",
  "One test writes whole blobs once.",
  [BL, CF],
  [("space reserved and zero-extended at creation", "BlobNodeImpl ctor"), ("offset arithmetic over checksummed pages", "BlobNodeImpl::read/write, CheckedFile")],
  ["bytes returned by blob reads at any time"])

prop("C15", "A rejected call changes nothing: the session continues as if never made",
  "When a call is refused because of its arguments or the state (bad path or name, element already set or owned, wrong file, type constraint, value out of bounds, incompatible or missing buffers, bad range, missing extension), it throws the library's exception and the rest of the session produces the same results and the same file as if that call had not been made. A record write that fails on one of its values spoils at most the record set being written, never any other part of the file.",
  ["histories", "programs"],
  "every session with refused calls inserted at any points",
  "Tests check that a wrong call throws, not what the session produces afterwards.",
  [ST, "src/NodeImpl.cpp", "src/VectorNodeImpl.cpp", SB, WR, IF],
  [("checks before mutation", "StructureNodeImpl::set, setParent, checkBuffers, CompressedVectorWriterImpl::write")],
  ["file bytes and results with and without the refused calls"])

prop("C16", "Checksum policy trades detection only: same data, defined coverage",
  "On an undamaged file every checksum policy delivers identical results. On a damaged file, a read that touches a damaged page reports a checksum error if the policy is full checking, or if the policy is partial and the page is one the policy promises to verify; with checking off no checksum error is ever reported and undamaged parts still read exactly.",
  ["configurations", "inputs", "fault_sequences"],
  "all policies 0..100 (and out-of-range values, which are clamped) x damaged pages x reading histories",
  "The tests use the three named policies on intact files and one corrupt file.",
  [CF, IF],
  [("policy switch per page", "CheckedFile::read"), ("clamping", "ImageFileImpl ctor")],
  ["data and error codes of paired sessions"])

prop("C17", "Scans and images stored through the simple interface read back equal",
  "Any scans, images and file-level data written through the high-level writer and closed without error are returned by the high-level reader with equal header fields, limits, poses, identifiers, image bytes of every representation and point data of every chosen field, for any number of points, batch sizes, numeric encodings and groupings. Points come back in the order written, whatever batch sizes writer and reader use.",
  ["histories", "inputs", "configurations"],
  "all combinations of optional fields, encodings, counts and batch sizes, several scans and images per file",
  "The tests store a few fixed scans and mostly verify counts.",
  [SW, SR, "src/E57SimpleData.cpp", "src/E57SimpleWriter.cpp", "src/E57SimpleReader.cpp"],
  [("mapping of scan and image headers to elements", "WriterImpl::NewData3D/NewImage2D, ReaderImpl::ReadData3D/ReadImage2D"), ("point buffers", "SetUpData3DPointsData")],
  ["headers, buffers and image bytes returned by the reader"])

prop("C18", "Running out of memory in any call is reported and leaves the process sound",
  "If any single memory allocation made on behalf of a library call fails, the call reports an exception (or succeeds regardless), nothing crashes or leaks, and every handle can still be destroyed. Other files are unaffected and the same session repeated with memory available succeeds; a failed writing session is never reported as a successful close of an incomplete file.",
  ["fault_sequences", "histories"],
  "every allocation index of every reading and writing session",
  "Allocation failures cannot be provoked by the tests.",
  [IF, CF, RD, WR, XP],
  [("exception safety of constructors and containers", "ImageFileImpl::construct2, CompressedVectorReaderImpl ctor, PacketReadCache")],
  ["exceptions, heap and descriptor accounting, later sessions"])

prop("C19", "Output bytes depend only on the session, not on ambient process state",
  "Two runs of the same writing session produce byte-identical files, regardless of path name, previous contents of the path, previously run sessions, uninitialised memory, the time of day, or the locale set by the application. Reading a file is equally independent of the application's locale.",
  ["histories", "configurations", "inputs"],
  "all sessions x locale settings (C and C++ global) x memory fill patterns x prior histories in the process",
  "The tests run in one locale, once, and do not compare bytes.",
  [CF, "src/StringFunctions.cpp", XP, "src/ScaledIntegerNodeImpl.cpp", EN],
  [("number formatting and parsing", "CheckedFile::operator<<, floatingPointToStr, strToDouble"), ("buffers initialised before being written", "CheckedFile::write page buffer, DataPacket")],
  ["bytes of the files, values read"])

prop("C20", "Disk faults in the simple interface are reported, never fatal or silent",
  "If a disk operation fails during a high-level writing or reading session, the failing call, or at the latest the close of the writer, reports an exception, or the result is exactly the fault-free one; destroying the objects at any time afterwards never terminates the process. A writer that closed without reporting anything has produced a complete and correct file, and a reader never returns wrong points, headers or image bytes as if they were right.",
  ["fault_sequences", "histories"],
  "every disk operation of any high-level session x fault kinds, with destruction at any point",
  "No test injects faults into the high-level interface.",
  [SW, SR, "src/E57SimpleWriter.cpp", "src/E57SimpleReader.cpp", CF],
  [("error propagation through high-level objects", "WriterImpl::Close, ReaderImpl::Close, destructors")],
  ["exceptions, process survival, content read back"])

prop("C21", "Element and path name rules are applied uniformly",
  "A name or path is accepted by every call that takes one exactly if it follows the element name grammar, independent of the rest of the state.",
  ["inputs"], "all strings",
  "The tests sample a few names.",
  [IF], [("name parsing", "ImageFileImpl::elementNameParse/pathNameParse")], ["exceptions for each string"])

prop("C22", "Number texts convert to the nearest value and back",
  "Formatting a floating point number and parsing the text gives the number back for every value and precision used by the format, independent of anything but the value.",
  ["inputs"], "all floating point values",
  "The tests sample a few values.",
  ["src/StringFunctions.cpp"], [("formatting and parsing", "floatingPointToStr, strToDouble")], ["text and value"])

prop("C23", "The element tree a program sees is at every moment the one it built",
  "For any history of making, attaching, appending and dropping elements, including calls that are refused or that fail for lack of memory or because of the disk, every query (type, value, bounds, parent, path, name, attachment, root, children, lookup by any path, list of extensions, type equivalence) answers according to the tree actually built. A failed call either changed nothing or took full effect, an element is never attached twice or visible without its parent knowing it, the library's own invariant checks never fail, and the closed file shows the same tree when reopened.",
  ["histories", "fault_sequences", "programs"],
  "all sequences of element construction, set by relative or absolute path, append, handle drops and queries over one or several files, with an allocation or disk failure at any point",
  "The tests build a few fixed trees and query little of them; no test fails an allocation in the middle of attaching an element.",
  [ST, "src/VectorNodeImpl.cpp", "src/NodeImpl.cpp", IF, "src/ScaledIntegerNodeImpl.cpp", "src/IntegerNodeImpl.cpp", "src/FloatNodeImpl.cpp", BL, CV],
  [("attaching and propagation of the attached state", "StructureNodeImpl::set, VectorNodeImpl::set, NodeImpl::setParent/setAttachedRecursive"), ("path resolution", "StructureNodeImpl::lookup, NodeImpl::get/isDefined/pathName")],
  ["results of element queries, exceptions, the reopened file"])

prop("C24", "Record transfer delivers the exact value or reports that it cannot",
  "Moving records between file fields and memory buffers, with or without requested conversion and scaling, either delivers exactly the value that the conversion defines (same integer, nearest representable float, neighbouring integer for fractions, scaled value rounded to nearest) or reports an error; no value is ever silently wrapped, clipped, replaced by an arbitrary number or stored outside the bounds of its field. Combinations that need a conversion that was not requested are refused. This holds for each call of any transfer history, under disk read faults, and a refused transfer leaves later readers of the same file unaffected.",
  ["inputs", "histories", "fault_sequences"],
  "all field types and bounds x memory types x conversion and scaling requests x values including type limits, NaN and infinities x batch sizes and reader histories",
  "The tests transfer a few ordinary values with matching types; the combinations of types, limits and special values are unbounded.",
  [SB, EN, DE],
  [("conversion and range checks per value", "SourceDestBufferImpl::getNext*/setNext*"), ("bounds check of stored integers", "BitpackIntegerEncoder::processRecords, ConstantIntegerEncoder::processRecords")],
  ["buffers, exceptions, values read back"])

prop("C25", "The high-level reader presents any valid file faithfully, whoever wrote it",
  "For every valid E57 file, whichever optional elements it leaves out, whichever numeric types and field order it uses and whatever elements unknown to the reader it carries, the high-level reader reports exactly the headers, limits, sizes, groups, points and image bytes the file contains, with documented defaults for what is absent; limits the file gives are reported as given. An index outside the file's scans or images is refused without touching the caller's data. Under disk read faults each call either reports an error or delivers exactly that content, and later calls on the same reader are unaffected.",
  ["inputs", "histories", "fault_sequences"],
  "all valid documents (optional elements, numeric types, field orders, extensions) x sequences of reader calls x point buffer selections and batch sizes x read fault sequences",
  "The tests read a few sample files; combinations of absent elements, numeric types and call orders are unbounded and a wrong default is only visible against a model of the file.",
  ["src/ReaderImpl.cpp", "src/E57SimpleReader.cpp", "include/E57SimpleData.h"],
  [("headers and limits", "ReaderImpl::ReadData3D, ReaderImpl::ReadImage2D, _readColourRanges"), ("points, groups and images", "ReaderImpl::SetUpData3DPointsData, ReaderImpl::ReadData3DGroupsData, _readImage2DNode")],
  ["headers, buffers, return values, exceptions"])

prop("C26", "Looking at a file or a session changes nothing",
  "Queries, dump(), checkInvariant(), comparing, copying and casting handles of files, elements, buffers, record readers and record writers succeed at every point of a session at which the object is valid, answer the same when repeated, perform no disk access, and leave no trace: the bytes of a file being written and the results of every later call are those of the same session without them, even when such a call itself runs out of memory.",
  ["histories", "fault_sequences", "programs"],
  "all sessions x positions x sets of inspecting calls, with an allocation failure inside any of them and read faults in the surrounding session",
  "The tests query finished files only and never compare a session with and without queries; dump() is not tested at all.",
  [IF, "src/NodeImpl.cpp", "src/CompressedVectorReaderImpl.cpp", "src/CompressedVectorWriterImpl.cpp", EN, DE, SB, "src/Node.cpp"],
  [("inspection of readers and writers in progress", "CompressedVectorReaderImpl::dump/isOpen, CompressedVectorWriterImpl::dump/isOpen"), ("inspection of elements and files", "Node::checkInvariant, ImageFileImpl::dump, extensionsLookupPrefix")],
  ["bytes of the files, results of all calls, disk operations"])

prop("C27", "High-level calls that fail leave no trace and can be repeated",
  "Every call of the high-level Writer and Reader that cannot be carried out (a scan or image header that cannot be stored, an index, projection, image type or byte range that does not exist, groups of a scan without grouping, points without buffers or while other points are being written, any call after Close) reports so by its result or a library exception, never claims success and never crashes. It leaves no trace: no part of the refused scan or image appears in the file, the indexes of later items are unaffected, and the finished file has the content of the same session without it. NewData3D, NewImage2D and SetUpData3DPointsData that fail for want of memory can be repeated with success.",
  ["inputs", "histories", "fault_sequences"],
  "all sessions of Writer and Reader x positions x calls that must be refused x allocation failing inside a call",
  "The tests make hardly any failing call and never go on with the session afterwards; a half-made scan is visible only in the finished file.",
  ["src/WriterImpl.cpp", "src/ReaderImpl.cpp", "src/E57SimpleWriter.cpp", "src/E57SimpleReader.cpp"],
  [("headers that are refused", "WriterImpl::NewData3D, WriterImpl::NewImage2D"), ("arguments that are refused", "WriterImpl::WriteImage2DData, WriterImpl::WriteData3DGroupsData, WriterImpl::SetUpData3DPointsData"), ("closed readers", "ReaderImpl::IsOpen checks")],
  ["return values, exceptions, content of the finished file"])

prop("C28", "A file that breaks a rule of the format is refused, not interpreted",
  "A file that breaks a rule of the format, though its page checksums are in order, is reported with a library exception, not interpreted. Opening fails on a wrong signature, an unsupported version, a page size other than 1024, a recorded length other than the file's, an XML section outside the file or without its end, text that is not well-formed namespace-correct XML, a root that is not a Structure declaring the default namespace, two prefixes for one URI, an element of unknown type or lacking a required attribute, an unknown precision or heterogeneity flag, a value outside its element's bounds, text or children where none belong, a name used twice in a structure, unlike children of a uniform vector, or a record set holding anything but one prototype and one heterogeneous codecs vector. Reading a record set fails when its section header is of another kind, has reserved bytes set, or a length or offset that is misaligned or beyond the file, or when a packet on the way is of unknown kind, has a misaligned length, streams that do not fill it, padding that is not zero or index header fields out of range. Reading a blob that lies beyond the file fails. All other elements of the file read as if it were valid, in whatever order they are read.",
  ["inputs", "histories", "fault_sequences"],
  "all valid files x rules x places where the rule is broken x orders of reading x file or memory input x disk faults on top",
  "The tests open one or two files with bad checksums or version; whether each rule is enforced at every place, on every reading path, and without harm to the rest cannot be sampled by a few files.",
  ["src/ImageFileImpl.cpp", "src/E57XmlParser.cpp", "src/SectionHeaders.cpp", "src/Packet.cpp", "src/CompressedVectorReaderImpl.cpp", "src/CompressedVectorNodeImpl.cpp", "src/StructureNodeImpl.cpp", "src/VectorNodeImpl.cpp", "src/IntegerNodeImpl.cpp", "src/ScaledIntegerNodeImpl.cpp", "src/FloatNodeImpl.cpp"],
  [("file header", "ImageFileImpl::readFileHeader"), ("XML", "E57XmlParser::startElement, E57XmlParser::endElement, E57XmlParser::characters, E57XmlParser::error"), ("record sections", "CompressedVectorSectionHeader::verify, DataPacketHeader::verify, DataPacket::verify, IndexPacket::verify, EmptyPacketHeader::verify")],
  ["exceptions of the opening and reading calls", "content of the other elements"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
