NOTES = {
'P03': "undefined PDFDocEncoding bytes, and invalid Unicode after a byte order mark, may read as anything as long as it is stable.",
'P05': "TIFF predictor at other than 8 bits per component is unsupported by the library; abbreviated filter names are accepted in inline images only (by design); a single DecodeParms dictionary beside an array of filters is malformed; whether the library's encoders write end-of-data marks is not prescribed.",
'P06': "no custom trailer keys. `PdfStreamedDocument` is out of scope: its Finish() throws NotImplemented.",
'P07': "gaps in the numbering of cross-reference tables are tolerated (readers treat them as free); offsets above 4 GB are not reached.",
'P09': "an object mentioned both in the table and in the hybrid stream of one section is taken from the table.",
'P10': "equality of an indirect and a direct PdfObject.",
'P12': "MoveAt(index) puts the page at that final index.",
'P13': "boxes other than Media and Crop on ancestors; a null value counts as absent; a created page is shielded from its ancestors' crop, rotation and resources.",
'P14': "dangling references of the source stay null only until numbers are reused; name trees are not merged; the outlines of the whole source are appended also by a single page insert.",
'P15': "nodes of loaded trees carry the Limits the specification requires; key identity and order are those of the bytes as written.",
'P16': "Count entries of the outlines.",
'P17': "single-digit fields, a zone sign without hours, and missing minutes may be accepted or refused.",
'P18': "keys of Algorithm 3 are hashed with the key length as de-facto readers do; RC4 under V4 may be saved again as V2 R3; V4 with Identity crypt filters and encrypted documents without ID are refused; passwords that are equal after padding, SASLprep or truncation are the same password; an update that would change the encryption must raise an error.",
'P19': "as P18. Weaknesses seen but outside the statement: the AESV2 IV is the MD5 of the document id, and AES-256 keys come from rand().",
'P20': "embedded font programs and JPEG data are left to their libraries; the visitor follows field kids 6 levels deep and decodes images below a million pixels.",
'P21': "bytes written by an encoder's destructor cannot be reported; dates, identifiers and the Version key of an update may differ from those of a first try.",
'P22': "a stream is not released while an input stream on it is open; changing the Length object of a stream is the user's error; copies of streams resolve references in Filter and DecodeParms by design.",
'P23': "seeks beyond the end of files, and Eof of write-only devices.",
'P24': "XMP properties are looked up under their usual prefixes; control characters are dropped in XMP; a packet that disagrees at load may stay so until something changes; a non-array dc:title is not read.",
'P26': "0x60 of StandardEncoding is U+0060 here; code points that share a glyph name and private-use code points in name round trips; unmapped codes of maps with mixed code lengths; undefined codes of predefined encodings; identity maps may map codes not in them; the count given with `begincodespacerange`, and blocks of more than 100 entries.",
'P27': "white space before EI may belong to the image data; data containing EI and white space is ambiguous; a delimiter directly after EI; names and keywords longer than the tokenizer's 4096 bytes.",
'P28': "the text state after a Restore that crosses its change, until a font is set again; SetCurrentMatrix (concatenates) once per saved state; arrays of contents shared between pages; multi-line text is not split; Arc is not implemented; the stale current points of SmoothCurveTo and HorizontalLineTo; rendering intents and tags given as strings are written raw.",
'P29': "signers of a fixed size; signing the same field twice and changing V after signing are the user's errors; later updates go to the signed file.",
'P30': "creating a field with the name of an existing one of the same type makes both the widgets of one field; a widget may stay when creation is refused; colours absent read as gray 0; children of direct root fields are not created.",
'P31': "moved-from values are only assigned again; streams are not part of the equality of objects; GetRawData of an evaluated string throws by design.",
'P33': "row padding; RGB to Grayscale decoding and RGBA input are refused by design; Decode arrays of JPEG and CCITT are not applied; refused TIFF kinds may be refused; short data given to SetData.",
}
