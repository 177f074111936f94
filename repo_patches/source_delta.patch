From 35d02b6add35344590cbaff8d6d7dda80211ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 01/37] fix: adding a number no longer formats (and mutates)
 the addend
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

stringNumber.String() expands the scale in place, so 一万二千 became 12000000.
---
 numericparser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index 3e0288a..994f40d 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -82,7 +82,6 @@ func (n *stringNumber) add(t *stringNumber) bool {
 		if t.point >= 0 {
 			n.point = len(n.significand) + t.point
 		}
-		_ = t.String()
 		n.significand = append(n.significand, t.significand...)
 		n.scale = t.scale
 		return true
-- 
2.43.0


From 10dd80b98b32848a6a9b606d4c6ff6a3492e063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:33 +0000
Subject: [PATCH 02/37] fix: accept a decimal point where one is allowed

The result of setPoint() was tested the wrong way round, so 1.5 was never joined.
---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index 994f40d..62094f8 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -201,7 +201,7 @@ func (p *numericParser) append(c rune) bool {
 			p.errorState = errComma
 			return false
 
-		} else if p.tmp.setPoint() {
+		} else if !p.tmp.setPoint() {
 			p.errorState = errPoint
 			return false
 		}
-- 
2.43.0


From 7d0bd2faca6c91b8b3c5ed376996f82eaf4a1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 03/37] fix: printdic prints the part of speech and the split
 units

make([]T, n, n) followed by append left n empty leading elements.
---
 dictionary/dicprinter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 5714e62..01ae3f6 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -32,7 +32,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	}
 
 	possize := grammar.GetPartOfSpeechSize()
-	posStrings := make([]string, possize, possize)
+	posStrings := make([]string, 0, possize)
 	for pid := 0; pid < possize; pid++ {
 		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
 	}
@@ -86,7 +86,7 @@ func splitToString(split []int32) string {
 	if len(split) == 0 {
 		return "*"
 	}
-	splitstrs := make([]string, len(split), len(split))
+	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
 		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
 	}
-- 
2.43.0


From 9bb4e9c238be52621ae43c7bcb74e2954cb308ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 04/37] fix: a user dictionary reuses the part-of-speech ids of
 the system dictionary

The six columns were joined before the lookup in the system grammar, which
then never matched.
---
 dictionary/dicbuilder.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f92ceb9..0e9f46c 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -77,18 +77,14 @@ type PosTableUser struct {
 	baseStore PosIdStore
 }
 
-func (pt *PosTableUser) getId(s string) int16 {
-	posId := pt.baseStore.GetPosId(s)
+func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
+	posId := pt.baseStore.GetPosId(posstrings...)
 	if posId < 0 {
-		posId = pt.PosTable.getId(s) + int16(pt.baseStore.GetPartOfSpeechSize())
+		posId = pt.PosTable.GetPosId(posstrings...) + int16(pt.baseStore.GetPartOfSpeechSize())
 	}
 	return posId
 }
 
-func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
-}
-
 func NewPosTableUser(base PosIdStore) *PosTableUser {
 	return &PosTableUser{
 		PosTable: PosTable{
-- 
2.43.0


From d916073571da317e3803afd12ac2bad84b51cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 05/37] fix: dicconv stops when the source dictionary cannot be
 read

---
 dicconv/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dicconv/main.go b/dicconv/main.go
index 638a81b..3ed2d09 100644
--- a/dicconv/main.go
+++ b/dicconv/main.go
@@ -65,6 +65,7 @@ Options:
 	fromdic, err := dictionary.NewBinaryDictionary(args[0], !utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
 	}
 	defer fromdic.Close()
 
-- 
2.43.0


From 09cdb8104dc9d927ff3530c264632fb6b0bfd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 06/37] fix: bit vector tests the requested bit and ranks
 inclusively

Intersections of the DAWG were mislabelled when several keys share a value.
---
 dartsclone/bitvector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dartsclone/bitvector.go b/dartsclone/bitvector.go
index 8159da4..7b30723 100644
--- a/dartsclone/bitvector.go
+++ b/dartsclone/bitvector.go
@@ -16,14 +16,14 @@ func newBitVector() *bitVector {
 }
 
 func (v *bitVector) get(id int) bool {
-	return v.units[id/unitLength]>>((uint(id)%unitLength)&1) == 1
+	return (v.units[id/unitLength]>>(uint(id)%unitLength))&1 == 1
 }
 
 func (v *bitVector) rank(id int) int {
 	const mask = uint32(0xffffffff)
 	unitId := id / unitLength
 	offset := uint(id % unitLength)
-	return v.ranks[unitId] + popCount(v.units[unitId] & ^(mask<<offset))
+	return v.ranks[unitId] + popCount(v.units[unitId] & (mask>>(unitLength-1-offset)))
 }
 
 func (v *bitVector) set(id int, bit bool) {
-- 
2.43.0


From db8a9361d81c958d5bf9b6734cac6c8f5c23c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 07/37] fix: duplicate or unsorted keys are rejected instead of
 panicking

---
 dartsclone/dawgbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 81a9d0b..2940fce 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -168,7 +168,7 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		}
 
 		var keyLabel byte
-		if keyPos <= keylen {
+		if keyPos < keylen {
 			keyLabel = key[keyPos]
 		}
 		if keyPos < keylen && keyLabel == 0 {
-- 
2.43.0


From 6d21155d44a44b8d38836c9613f649814d9f6fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 08/37] fix: WriteWordInfos reports a failed write

---
 dictionary/dalexicon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 88bb645..6f7f187 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -352,6 +352,9 @@ func (lexicon *DoubleArrayLexicon) WriteWordInfos(writer io.Writer, offset int64
 			return 0, offsets, err
 		}
 		n, err := buffer.WriteTo(writer)
+		if err != nil {
+			return 0, offsets, err
+		}
 		buffer.Reset()
 		position += n
 	}
-- 
2.43.0


From 0004b3f3f207d44cb9ee9efed6c1034f285a5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 09/37] fix: WriteGrammar reports read errors and out-of-range
 matrix entries

---
 dictionary/dicbuilder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 0e9f46c..4f48737 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -494,6 +494,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err == io.EOF {
 		return fmt.Errorf("invalid format at line %d", r.NumLine)
 	}
+	if err != nil {
+		return err
+	}
 
 	fmt.Fprint(os.Stderr, "writing the connection matrix...")
 
@@ -509,6 +512,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 	}
+	if leftSize < 0 || rightSize < 0 {
+		return fmt.Errorf("invalid format at line %d", r.NumLine)
+	}
 	err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(leftSize))
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
@@ -556,6 +562,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 		if err != nil {
 			return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 		}
+		if left < 0 || left >= leftSize || right < 0 || right >= rightSize {
+			return fmt.Errorf("invalid format at line %d", r.NumLine)
+		}
 		binary.LittleEndian.PutUint16(matrix[2*(left+leftSize*right):], uint16(cost))
 	}
 
-- 
2.43.0


From 671fafeeca580d1707067abb4ceac7bb27adae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 10/37] fix: a file too short for a dictionary header is an
 error, not a panic

NewBinaryDictionary also gives the mapping and the file back, and PrintHeader
returns an error instead of ending the process.
---
 dictionary/binarydict.go | 2 ++
 dictionary/dicheader.go  | 6 +++++-
 dictionary/dicprinter.go | 6 ++++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index f0c0953..25d130b 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -34,6 +34,8 @@ func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary,
 	offset := 0
 	header := ParseDictionaryHeader(fmap, offset)
 	if header == nil {
+		_ = mmap.Munmap(fmap)
+		_ = fd.Close()
 		return nil, fmt.Errorf("invalid header: %s", filename)
 	}
 
diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index cb6e4f6..be593ce 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -26,11 +26,15 @@ func NewDictionaryHeader(version uint64, createTime int64, description string) *
 }
 
 func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
+	if len(input)-offset < HeaderStorageSize {
+		return nil
+	}
+	end := offset + HeaderStorageSize
 	offset, version := bufferToUint64(input, offset)
 	offset, createTime := bufferToInt64(input, offset)
 
 	i := offset
-	for ; i < HeaderStorageSize; i++ {
+	for ; i < end; i++ {
 		if input[i] == 0 {
 			break
 		}
diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 01ae3f6..0ab50f8 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -112,6 +112,9 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	defer mmap.Munmap(bytebuffer)
 
 	dh := ParseDictionaryHeader(bytebuffer, 0)
+	if dh == nil {
+		return fmt.Errorf("invalid header: %s", dictfile)
+	}
 
 	fmt.Fprintf(output, "filename: %s\n", dictfile)
 
@@ -121,8 +124,7 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	case UserDictVersion, UserDictVersion2:
 		fmt.Fprintln(output, "type: user dictionary")
 	default:
-		fmt.Fprintln(output, "invalid file")
-		os.Exit(1)
+		return fmt.Errorf("invalid dictionary: %s", dictfile)
 	}
 
 	ctime := time.Unix(dh.CreateTime, 0)
-- 
2.43.0


From 0a50af0621f3220cf50461b65aaa65bd31957fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 11/37] fix: closing a dictionary always closes its file

---
 dictionary/binarydict.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index 25d130b..dc8cb60 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -87,8 +87,9 @@ func ReadUserDictionary(filename string, utf16string bool) (*BinaryDictionary, e
 
 func (bd *BinaryDictionary) Close() error {
 	err := mmap.Munmap(bd.fmap)
+	cerr := bd.fd.Close()
 	if err != nil {
 		return err
 	}
-	return bd.fd.Close()
+	return cerr
 }
-- 
2.43.0


From 93c0eb6ef19b0169d045967300dcbd3e86a8a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 12/37] fix: NewJapaneseDictionary closes the dictionaries it
 opened when it fails

---
 dictionary.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 9f67420..7f9e981 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -36,53 +36,62 @@ func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugi
 		pathRewritePlugins: pathRewritePlugins,
 	}
 
+	err := d.setUp(config, editConnectionCostPlugins)
+	if err != nil {
+		d.Close()
+		return nil, err
+	}
+	return d, nil
+}
+
+func (d *JapaneseDictionary) setUp(config *BaseConfig, editConnectionCostPlugins []EditConnectionCostPlugin) error {
 	err := d.ReadSystemDictionary(config.SystemDict, config.Utf16String)
 	if err != nil {
-		return nil, fmt.Errorf("fail to read a system dictionary: %s", err)
+		return fmt.Errorf("fail to read a system dictionary: %s", err)
 	}
 
 	for _, plugin := range editConnectionCostPlugins {
 		err := plugin.SetUp(d.grammar)
 		if err != nil {
-			return nil, err
+			return err
 		}
 		err = plugin.Edit(d.grammar)
 		if err != nil {
-			return nil, err
+			return err
 		}
 	}
 
 	err = d.ReadCharacterDefinition(config.CharacterDefinitionFile)
 	if err != nil {
-		return nil, fmt.Errorf("fail to read a character defition file: %s", err)
+		return fmt.Errorf("fail to read a character defition file: %s", err)
 	}
 
-	for _, plugin := range inputTextPlugins {
+	for _, plugin := range d.inputTextPlugins {
 		err := plugin.SetUp()
 		if err != nil {
-			return nil, err
+			return err
 		}
 	}
-	for _, plugin := range oovProviderPlugins {
+	for _, plugin := range d.oovProviderPlugins {
 		err := plugin.SetUp(d.grammar)
 		if err != nil {
-			return nil, err
+			return err
 		}
 	}
-	for _, plugin := range pathRewritePlugins {
+	for _, plugin := range d.pathRewritePlugins {
 		err := plugin.SetUp(d.grammar)
 		if err != nil {
-			return nil, err
+			return err
 		}
 	}
 
 	for _, ud := range config.UserDict {
 		err := d.ReadUserDictionary(ud, config.Utf16String)
 		if err != nil {
-			return nil, fmt.Errorf("fail to read a user dictionary: %s", err)
+			return fmt.Errorf("fail to read a user dictionary: %s", err)
 		}
 	}
-	return d, nil
+	return nil
 }
 
 func (d *JapaneseDictionary) ReadSystemDictionary(filename string, utf16string bool) error {
-- 
2.43.0


From 29626ebdb10a1ead3a309fa6eb3b0c641a1a31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 13/37] fix: a user dictionary whose costs cannot be calculated
 is an error

---
 dictionary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 7f9e981..90bf297 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -126,7 +126,7 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		d.oovProviderPlugins,
 		[]PathRewritePlugin{},
 	)
-	userLexicon.CalculateCost(func(text string) (int16, error) {
+	err = userLexicon.CalculateCost(func(text string) (int16, error) {
 		ms, err := tokenizer.Tokenize("C", text)
 		if err != nil {
 			return int16(mincost), err
@@ -139,6 +139,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		}
 		return int16(cost), nil
 	})
+	if err != nil {
+		return err
+	}
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
 	d.grammar.AddPosList(dict.Grammar)
 	return nil
-- 
2.43.0


From 2e75fe71bf9c4e54825b3eccb34131381a30d32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 14/37] fix: accept user dictionaries without a grammar section

---
 dictionary.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 90bf297..5ab3239 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -143,7 +143,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return err
 	}
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
-	d.grammar.AddPosList(dict.Grammar)
+	if dict.Grammar != nil {
+		d.grammar.AddPosList(dict.Grammar)
+	}
 	return nil
 }
 
-- 
2.43.0


From 5b34c097fc0326312d6278c4a28e9c3ec90df682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 15/37] fix: a failed Tokenize leaves no nodes behind for the
 next one

---
 tokenizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tokenizer.go b/tokenizer.go
index 0d194a5..dc1bcdc 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -97,6 +97,7 @@ func (t *JapaneseTokenizer) Tokenize(mode string, text string) (*MorphemeList, e
 
 func (t *JapaneseTokenizer) buildLattice(input *InputText) error {
 	bytea := input.Bytea
+	t.lattice.clear()
 	t.lattice.resize(len(bytea))
 	for i, _ := range bytea {
 		if !input.CanBow(i) || !t.lattice.HasPreviousNode(i) {
-- 
2.43.0


From 7ab834564b0af5fce1a83534c1f85dbd03d7baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 16/37] fix: Tokenize and Morpheme.Split agree on modes other
 than A and B

---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index dc1bcdc..15dbae9 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -82,7 +82,7 @@ func (t *JapaneseTokenizer) Tokenize(mode string, text string) (*MorphemeList, e
 	}
 	t.lattice.clear()
 
-	if mode != "C" {
+	if mode == "A" || mode == "B" {
 		path = t.splitPath(path, mode)
 	}
 
-- 
2.43.0


From a3ceb35ba0054ad702dee2584b5b2c858bdbce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 17/37] fix: JoinNumericPlugin reports errors at the end of the
 path too

---
 joinnumericplugin.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/joinnumericplugin.go b/joinnumericplugin.go
index 722dff2..c2da53d 100644
--- a/joinnumericplugin.go
+++ b/joinnumericplugin.go
@@ -138,13 +138,19 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 
 	if beginIndex >= 0 {
 		if parser.done() {
-			p.concatNodes(path, beginIndex, len(*path), lattice, parser)
+			err := p.concatNodes(path, beginIndex, len(*path), lattice, parser)
+			if err != nil {
+				return fmt.Errorf("JoinNumericPlugin: %s", err)
+			}
 		} else {
 			wi := (*path)[len(*path)-1].GetWordInfo()
 			ss := wi.NormalizedForm
 			if (parser.errorState == errComma && ss == ",") ||
 				(parser.errorState == errPoint && ss == ".") {
-				p.concatNodes(path, beginIndex, len(*path)-1, lattice, parser)
+				err := p.concatNodes(path, beginIndex, len(*path)-1, lattice, parser)
+				if err != nil {
+					return fmt.Errorf("JoinNumericPlugin: %s", err)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 840ed92220ff26b4b651c5217d2bf887e743ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 18/37] fix: InhibitConnectionPlugin reads inhibitedPair from
 the settings

The field was unexported, so encoding/json never filled it.
---
 inhibitconnectioncostplugin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index e720e52..ac8c5d4 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -5,12 +5,12 @@ import (
 )
 
 type InhibitConnectionPlugin struct {
-	inhibitedPair []*[]int
+	InhibitedPair []*[]int
 }
 
 func NewInhibitConnectionPlugin(inhibitedPair []*[]int) *InhibitConnectionPlugin {
 	return &InhibitConnectionPlugin{
-		inhibitedPair: inhibitedPair,
+		InhibitedPair: inhibitedPair,
 	}
 }
 
@@ -23,8 +23,8 @@ func (p *InhibitConnectionPlugin) SetUp(grammar *dictionary.Grammar) error {
 }
 
 func (p *InhibitConnectionPlugin) Edit(grammar *dictionary.Grammar) error {
-	for _, pair := range p.inhibitedPair {
-		if len(*pair) < 2 {
+	for _, pair := range p.InhibitedPair {
+		if pair == nil || len(*pair) < 2 {
 			continue
 		}
 		InhibitConnection(grammar, int16((*pair)[0]), int16((*pair)[1]))
-- 
2.43.0


From 00624b06da1264b80a5c95491b42dc416e11f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 19/37] fix: relative settings paths are resolved against the
 resource directory

The default was only used when a path was already set.
---
 settingsjson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/settingsjson.go b/settingsjson.go
index 0c287da..75362e7 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -42,7 +42,7 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 	if err != nil {
 		return err
 	}
-	if internalBaseConfig.Path == nil && settings.path != "" {
+	if internalBaseConfig.Path == nil && settings.path == "" {
 		settings.path = defpath
 	} else if internalBaseConfig.Path != nil {
 		settings.path = *internalBaseConfig.Path
-- 
2.43.0


From e07879b096785dee3f8172efe9be35ab545682a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 20/37] fix: the best previous node is found whatever its cost

Paths costing more than MaxInt32 were treated as unreachable.
---
 lattice.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lattice.go b/lattice.go
index 2568770..9ad8900 100644
--- a/lattice.go
+++ b/lattice.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"math"
 	"strings"
 
 	"github.com/msnoigrs/gosudachi/dictionary"
@@ -228,7 +227,7 @@ func (l *Lattice) HasPreviousNode(index int) bool {
 
 func (l *Lattice) connectNode(rNode *LatticeNode) {
 	begin := rNode.Begin
-	rNode.totalCost = math.MaxInt32
+	rNode.bestPreviousNode = nil
 	for _, lNode := range l.endLists[begin] {
 		if !lNode.isConnectedToBOS {
 			continue
@@ -238,7 +237,7 @@ func (l *Lattice) connectNode(rNode *LatticeNode) {
 			continue // this connection is not allowed
 		}
 		cost := lNode.totalCost + int(connectCost)
-		if cost < rNode.totalCost {
+		if rNode.bestPreviousNode == nil || cost < rNode.totalCost {
 			rNode.totalCost = cost
 			rNode.bestPreviousNode = lNode
 		}
-- 
2.43.0


From 49afc3080685cfb14f5491e8506440ed4a11745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 21/37] fix: looking up a dictionary form does not recurse

Words whose dictionary forms refer to each other overflowed the stack.
---
 dictionary/dalexicon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 6f7f187..9d4249d 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -129,8 +129,7 @@ func (l *wordInfoList) getWordInfo(wordId int32) *WordInfo {
 
 	dictionaryForm := surface
 	if dictionaryFormWordId >= 0 && dictionaryFormWordId != wordId {
-		wi := l.getWordInfo(dictionaryFormWordId)
-		dictionaryForm = wi.Surface
+		_, dictionaryForm = l.bufferToStringF(l.bytebuffer, l.wordIdToOffset(dictionaryFormWordId))
 	}
 
 	return &WordInfo{
-- 
2.43.0


From 071cf220d5c4fd03a37bc2bf72f27252655b59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 22/37] fix: the builder rejects dictionary form ids of words
 that do not exist

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 4f48737..a3c13e3 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -813,6 +813,9 @@ func (dicbuilder *DictionaryBuilder) writeWordInfo(writer io.WriteSeeker, store
 		if err != nil {
 			return err
 		}
+		if int64(wi.DictionaryFormWordId) >= int64(len(dicbuilder.wordEntries)) {
+			return fmt.Errorf("invalid dictionary form word ID: %d", wi.DictionaryFormWordId)
+		}
 		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint32(wi.DictionaryFormWordId))
 		if err != nil {
 			return err
-- 
2.43.0


From ef957804afdc7f0e11f61781d6e3133a36f88343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 23/37] fix: strings too long for their length field are
 rejected

Part-of-speech names and strings converted by dicconv were not checked, and
their length wrapped around.
---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index a3c13e3..c917d04 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -420,6 +420,9 @@ func writeStringLength(buffer *bytes.Buffer, length int16) error {
 }
 
 func writeString(buffer *bytes.Buffer, s string) error {
+	if len(s) > StringUtf8MaxLength {
+		return errors.New("string is too long")
+	}
 	err := writeStringLength(buffer, int16(len(s)))
 	if err != nil {
 		return err
@@ -434,6 +437,9 @@ func writeString(buffer *bytes.Buffer, s string) error {
 func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 	// java compatible
 	javainternal := utf16.Encode([]rune(s))
+	if len(javainternal) > StringUtf16MaxLength {
+		return errors.New("string is too long")
+	}
 
 	err := writeStringLength(buffer, int16(len(javainternal)))
 	if err != nil {
-- 
2.43.0


From 3ab901b2e007b568ab7ec69a4b8e040a1a290e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 24/37] fix: headwords longer than the headword length field
 are rejected

The length is counted in UTF-8 bytes, whatever the encoding of the strings.
---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index c917d04..b92e02f 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -309,6 +309,9 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 		if dicbuilder.stringLen(cols[0]) {
 			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
 		}
+		if len(cols[0]) > StringUtf8MaxLength {
+			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
+		}
 		if dicbuilder.stringLen(cols[4]) {
 			return fmt.Errorf("string is too long: column 4 at line %d", r.numLine)
 		}
-- 
2.43.0


From 1131a111b8c88b94290db6341fe402c827778f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 25/37] fix: arrays too long for their length field are
 rejected

---
 dictionary/dicbuilder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index b92e02f..9d3daaa 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -458,6 +459,9 @@ func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 }
 
 func writeIntArray(buffer *bytes.Buffer, a []int32) error {
+	if len(a) > math.MaxUint8 {
+		return errors.New("too many elements in an array")
+	}
 	err := buffer.WriteByte(byte(len(a)))
 	if err != nil {
 		return err
@@ -676,6 +680,9 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 		wordIds, _ := v.([]int32)
 		keys[i] = bkey
 		values[i] = position
+		if len(wordIds) > math.MaxUint8 {
+			return fmt.Errorf("too many words with the same headword: %s", bkey)
+		}
 		err := wordIdTable.WriteByte(byte(len(wordIds)))
 		if err != nil {
 			return err
-- 
2.43.0


From 576a69d39cc958931a933bc20092f0d5c70c43e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 26/37] fix: more parts of speech than ids is an error

The 16-bit id wrapped around.
---
 dictionary/dicbuilder.go | 15 ++++++++++++++-
 dictionary/grammar.go    |  4 ++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 9d3daaa..db4862f 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -53,6 +53,9 @@ func (pt *PosTable) getId(s string) int16 {
 	if ok {
 		return id
 	}
+	if len(pt.table) > math.MaxInt16 {
+		return -1
+	}
 	id = int16(len(pt.table))
 	pt.contains[s] = id
 	pt.table = append(pt.table, s)
@@ -81,7 +84,11 @@ type PosTableUser struct {
 func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
 	posId := pt.baseStore.GetPosId(posstrings...)
 	if posId < 0 {
-		posId = pt.PosTable.GetPosId(posstrings...) + int16(pt.baseStore.GetPartOfSpeechSize())
+		id := int(pt.PosTable.GetPosId(posstrings...))
+		if id < 0 || id+pt.baseStore.GetPartOfSpeechSize() > math.MaxInt16 {
+			return -1
+		}
+		posId = int16(id + pt.baseStore.GetPartOfSpeechSize())
 	}
 	return posId
 }
@@ -349,6 +356,9 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 
 		// part of speech
 		posId := store.GetPosId(cols[5], cols[6], cols[7], cols[8], cols[9], cols[10])
+		if posId < 0 {
+			return fmt.Errorf("too many parts of speech at line %d", r.numLine)
+		}
 
 		if strings.Count(cols[15], "/")+1 > ArrayMaxLength {
 			return fmt.Errorf("too many units: columns 15 at line %d", r.numLine)
@@ -642,6 +652,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammarUser(postable *PosTable, writer
 }
 
 func (dicbuilder *DictionaryBuilder) convertPOSTable(postable *PosTable) error {
+	if len(postable.table) > math.MaxUint16 {
+		return errors.New("too many parts of speech")
+	}
 	err := binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(len(postable.table)))
 	if err != nil {
 		return err
diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index 66d88f0..8ed7cef 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -3,6 +3,7 @@ package dictionary
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"io"
 	"math"
 )
@@ -128,6 +129,9 @@ func (g *Grammar) WritePOSTableTo(buffer *bytes.Buffer, utf16string bool) error
 	} else {
 		writeStringF = writeString
 	}
+	if len(g.posList) > math.MaxUint16 {
+		return errors.New("too many parts of speech")
+	}
 	err := binary.Write(buffer, binary.LittleEndian, uint16(len(g.posList)))
 	if err != nil {
 		return err
-- 
2.43.0


From 5b821e6c3eab64d7d8e63a26008c625a8cc7be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 27/37] fix: words made up at run time have no dictionary form
 id

They claimed word 0 of the system dictionary, which printing or looking up
the dictionary form would follow.
---
 mecaboovproviderplugin.go  | 13 +++++++------
 plugin.go                  | 26 ++++++++++++++------------
 simpleoovproviderplugin.go | 13 +++++++------
 3 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index 79cb83f..bd4d8c7 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -128,12 +128,13 @@ func (p *MeCabOovProviderPlugin) getOovNode(text string, oov *oov, length int) *
 	node := CreateNodeOfOOV()
 	node.SetParameter(oov.leftId, oov.rightId, oov.cost)
 	wi := &dictionary.WordInfo{
-		Surface:        text,
-		HeadwordLength: int16(length),
-		PosId:          oov.posId,
-		NormalizedForm: text,
-		DictionaryForm: text,
-		ReadingForm:    "",
+		Surface:              text,
+		HeadwordLength:       int16(length),
+		PosId:                oov.posId,
+		NormalizedForm:       text,
+		DictionaryFormWordId: -1,
+		DictionaryForm:       text,
+		ReadingForm:          "",
 	}
 	node.SetWordInfo(wi)
 	return node
diff --git a/plugin.go b/plugin.go
index bfc0167..ff1dc91 100644
--- a/plugin.go
+++ b/plugin.go
@@ -134,12 +134,13 @@ func ConcatenateNodes(path *[]*LatticeNode, begin int, end int, lattice *Lattice
 		normalizedForm = string(cnormalizedForm)
 	}
 	wi := &dictionary.WordInfo{
-		Surface:        string(csurface),
-		HeadwordLength: length,
-		PosId:          posId,
-		NormalizedForm: normalizedForm,
-		DictionaryForm: string(cdictionaryForm),
-		ReadingForm:    string(creadingForm),
+		Surface:              string(csurface),
+		HeadwordLength:       length,
+		PosId:                posId,
+		NormalizedForm:       normalizedForm,
+		DictionaryFormWordId: -1,
+		DictionaryForm:       string(cdictionaryForm),
+		ReadingForm:          string(creadingForm),
 	}
 
 	node := &LatticeNode{}
@@ -180,12 +181,13 @@ func ConcatenateOov(path *[]*LatticeNode, begin int, end int, posId int16, latti
 	}
 	s := string(csurface)
 	wi := &dictionary.WordInfo{
-		Surface:        s,
-		HeadwordLength: length,
-		PosId:          posId,
-		NormalizedForm: s,
-		DictionaryForm: s,
-		ReadingForm:    "",
+		Surface:              s,
+		HeadwordLength:       length,
+		PosId:                posId,
+		NormalizedForm:       s,
+		DictionaryFormWordId: -1,
+		DictionaryForm:       s,
+		ReadingForm:          "",
 	}
 
 	node := &LatticeNode{}
diff --git a/simpleoovproviderplugin.go b/simpleoovproviderplugin.go
index 5de2b48..d43192d 100644
--- a/simpleoovproviderplugin.go
+++ b/simpleoovproviderplugin.go
@@ -72,12 +72,13 @@ func (p *SimpleOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, h
 		length := inputText.GetCodePointsOffsetLength(offset, 1)
 		s := inputText.GetSubstring(offset, offset+length)
 		wi := &dictionary.WordInfo{
-			Surface:        s,
-			HeadwordLength: int16(length),
-			PosId:          p.oovPosId,
-			NormalizedForm: s,
-			DictionaryForm: s,
-			ReadingForm:    "",
+			Surface:              s,
+			HeadwordLength:       int16(length),
+			PosId:                p.oovPosId,
+			NormalizedForm:       s,
+			DictionaryFormWordId: -1,
+			DictionaryForm:       s,
+			ReadingForm:          "",
 		}
 		node.SetWordInfo(wi)
 		return []*LatticeNode{node}, nil
-- 
2.43.0


From 03f6e06585de3500cae1f5d62e0e0c4758eea0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 28/37] fix: the internal cost of an empty morpheme list is
 zero

A user word with an empty surface and an automatic cost crashed the load.
---
 morpheme.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/morpheme.go b/morpheme.go
index 975d377..f331b7d 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -157,5 +157,8 @@ func (l *MorphemeList) GetDictionaryId(index int) int {
 }
 
 func (l *MorphemeList) GetInternalCost() int {
+	if len(l.path) == 0 {
+		return 0
+	}
 	return l.path[len(l.path)-1].GetPathCost() - l.path[0].GetPathCost()
 }
-- 
2.43.0


From d2081e008af4ffdff068ad3d52ffe4a682df7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 29/37] fix: prolonged sound marks may be replaced by any
 number of characters

---
 prolongedsoundmarkinputtextplugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prolongedsoundmarkinputtextplugin.go b/prolongedsoundmarkinputtextplugin.go
index cf1ccfb..c785a40 100644
--- a/prolongedsoundmarkinputtextplugin.go
+++ b/prolongedsoundmarkinputtextplugin.go
@@ -68,7 +68,7 @@ func (p *ProlongedSoundMarkInputTextPlugin) Rewrite(builder *InputTextBuilder) e
 		} else if isProlongedSoundMark && !ok {
 			if (i - markStartIndex) > 1 {
 				builder.Replace(markStartIndex-offset, i-offset, p.replacementSymbol)
-				offset += i - markStartIndex - 1
+				offset += i - markStartIndex - len(p.replacementSymbol)
 			}
 			isProlongedSoundMark = false
 		}
-- 
2.43.0


From 2e2fd776f3e686f40aa8b1049d280c0a3b5ab8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 30/37] fix: the line reader forgets a carriage return once its
 line feed is dropped

The last byte seen was taken from beyond the dropped byte, so a stale '\r'
could swallow a second line feed.
---
 gosudachicli/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 9476437..ac011d6 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -161,7 +161,7 @@ func (norm *normalizer) Read(p []byte) (n int, err error) {
 		switch {
 		case p[i] == '\n' && norm.lastChar == '\r':
 			copy(p[i:n], p[i+1:])
-			norm.lastChar = p[i]
+			norm.lastChar = '\n'
 			n--
 			i--
 		case p[i] == '\r':
-- 
2.43.0


From d3ea29f75d908ebc98d615a1344571431d3ef706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 31/37] fix: gosudachicli reports output that could not be
 written

The final flush was deferred: its error was dropped, and it was skipped
altogether when the program ended on an error.
---
 gosudachicli/main.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index ac011d6..1fa4351 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -248,26 +248,27 @@ func run(tokenizer *gosudachi.JapaneseTokenizer, mode string, text string, outpu
 	if err != nil {
 		return err
 	}
+	w := bufio.NewWriter(output)
 	for i := 0; i < ms.Length(); i++ {
 		m := ms.Get(i)
 
-		fmt.Fprintf(output, "%s\t%s\t%s",
+		fmt.Fprintf(w, "%s\t%s\t%s",
 			m.Surface(),
 			strings.Join(m.PartOfSpeech(), ","),
 			m.NormalizedForm())
 		if printAll {
-			fmt.Fprintf(output, "\t%s\t%s\t%d",
+			fmt.Fprintf(w, "\t%s\t%s\t%d",
 				m.DictionaryForm(),
 				m.ReadingForm(),
 				m.GetDictionaryId())
 			if m.IsOOV() {
-				fmt.Fprintf(output, "\t(OOV)")
+				fmt.Fprintf(w, "\t(OOV)")
 			}
 		}
-		fmt.Fprintf(output, "\n")
+		fmt.Fprintf(w, "\n")
 	}
-	fmt.Fprintln(output, "EOS")
-	return nil
+	fmt.Fprintln(w, "EOS")
+	return w.Flush()
 }
 
 func main() {
@@ -328,9 +329,7 @@ Options:
 			os.Exit(1)
 		}
 		defer outputfd.Close()
-		bufiooutput := bufio.NewWriter(outputfd)
-		defer bufiooutput.Flush()
-		output = bufiooutput
+		output = outputfd
 	} else {
 		output = os.Stdout
 	}
-- 
2.43.0


From ff7d3488339e7790e489eb4c36be03549e4bd257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 32/37] fix: printdic and printdicheader report output that
 could not be written

---
 dictionary/dicprinter.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 0ab50f8..c47beb6 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -1,6 +1,7 @@
 package dictionary
 
 import (
+	"bufio"
 	"errors"
 	"fmt"
 	"io"
@@ -37,6 +38,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
 	}
 
+	w := bufio.NewWriter(output)
 	lexicon := dic.Lexicon
 	for wordId := int32(0); wordId < lexicon.Size(); wordId++ {
 		leftId := lexicon.GetLeftId(wordId)
@@ -46,7 +48,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 
 		unitType := getUnitType(wi)
 
-		fmt.Fprintf(output,
+		fmt.Fprintf(w,
 			"%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s,%s,%s\n",
 			wi.Surface,
 			leftId,
@@ -63,7 +65,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 			splitToString(wi.WordStructure),
 		)
 	}
-	return nil
+	return w.Flush()
 }
 
 func wordIdToString(wid int) string {
@@ -116,21 +118,22 @@ func PrintHeader(dictfile string, output io.Writer) error {
 		return fmt.Errorf("invalid header: %s", dictfile)
 	}
 
-	fmt.Fprintf(output, "filename: %s\n", dictfile)
+	w := bufio.NewWriter(output)
+	fmt.Fprintf(w, "filename: %s\n", dictfile)
 
 	switch dh.Version {
 	case SystemDictVersion:
-		fmt.Fprintln(output, "type: system dictionary")
+		fmt.Fprintln(w, "type: system dictionary")
 	case UserDictVersion, UserDictVersion2:
-		fmt.Fprintln(output, "type: user dictionary")
+		fmt.Fprintln(w, "type: user dictionary")
 	default:
 		return fmt.Errorf("invalid dictionary: %s", dictfile)
 	}
 
 	ctime := time.Unix(dh.CreateTime, 0)
 	zone, _ := ctime.Zone()
-	fmt.Fprintf(output, "createTime: %s[%s]\n", ctime.Format(time.RFC3339), zone)
-	fmt.Fprintf(output, "description: %s\n", dh.Description)
+	fmt.Fprintf(w, "createTime: %s[%s]\n", ctime.Format(time.RFC3339), zone)
+	fmt.Fprintf(w, "description: %s\n", dh.Description)
 
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 1dc658fe746512579c6a4ec725feeb7c979282d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:20 +0000
Subject: [PATCH 33/37] fix: a plugin entry of the settings is named by its own
 keys only

---
 settingsjson.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/settingsjson.go b/settingsjson.go
index 75362e7..42924f8 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -86,11 +86,11 @@ func (settings *SettingsJSON) getPath(path string) string {
 
 func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPluginFunc) ([]InputTextPlugin, error) {
 	ret := []InputTextPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.inputTextPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -117,11 +117,11 @@ func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPlug
 
 func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProviderPluginFunc) ([]OovProviderPlugin, error) {
 	ret := []OovProviderPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.oovProviderPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -148,11 +148,11 @@ func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProvider
 
 func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEditConnectionCostPluginFunc) ([]EditConnectionCostPlugin, error) {
 	ret := []EditConnectionCostPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.editConnectionCostPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -179,11 +179,11 @@ func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEdit
 
 func (settings *SettingsJSON) GetPathRewritePluginArray(makeproc MakePathRewritePluginFunc) ([]PathRewritePlugin, error) {
 	ret := []PathRewritePlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.pathRewritePlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
-- 
2.43.0


From a9a92f79c8bc1eb75ffe3e837c44d3f455da5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 34/37] fix: a traversal goes on from the node it is given

---
 dartsclone/da.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/da.go b/dartsclone/da.go
index 9e7ca7f..6492519 100644
--- a/dartsclone/da.go
+++ b/dartsclone/da.go
@@ -233,7 +233,7 @@ type TraverseResult struct {
 func (da *DoubleArray) Traverse(key []byte, offset int, length int, nodePosition int) *TraverseResult {
 	nodePos := uint32(nodePosition)
 	id := nodePos
-	u := daunit(da.array[0])
+	u := daunit(da.array[int(id)])
 
 	for i := offset; i < length; i++ {
 		k := uint32(key[i])
-- 
2.43.0


From 629198dd1db2cf18ee90fa9b6e71bb755ea2aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 35/37] fix: a word's id is looked up by the part-of-speech id
 its dictionary was given

---
 dictionary/lexiconset.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dictionary/lexiconset.go b/dictionary/lexiconset.go
index 52baa02..f9e41c5 100644
--- a/dictionary/lexiconset.go
+++ b/dictionary/lexiconset.go
@@ -31,7 +31,15 @@ func (s *LexiconSet) Lookup(text []byte, offset int) *LexiconSetIterator {
 
 func (s *LexiconSet) GetWordId(headword string, posId int16, readingForm string) int32 {
 	for dictId := 1; dictId < len(s.lexicons); dictId++ {
-		wordId := s.lexicons[dictId].GetWordId(headword, posId, readingForm)
+		id := int32(posId)
+		if id >= s.posOffsets[1] {
+			// user defined part-of-speech
+			if id < s.posOffsets[dictId] {
+				continue
+			}
+			id += s.posOffsets[1] - s.posOffsets[dictId]
+		}
+		wordId := s.lexicons[dictId].GetWordId(headword, int16(id), readingForm)
 		if wordId >= 0 {
 			// buildWordId
 			return int32(uint32(dictId)<<28) | wordId
-- 
2.43.0


From 9efb78d9625d3487c38ee61fa6229326eeb873b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 36/37] fix: write the word count of a lexicon without words

---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index db4862f..3f566fa 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -768,6 +768,12 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 	if err != nil {
 		return err
 	}
+	n, err = dicbuilder.buffer.WriteTo(bwriter)
+	if err != nil {
+		return err
+	}
+	dicbuilder.position += n
+	dicbuilder.buffer.Reset()
 	for _, entry := range dicbuilder.wordEntries {
 		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(entry.Parameters[0]))
 		if err != nil {
-- 
2.43.0


From a34b2a93caa1813a06d056f201609be7821cea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 37/37] fix: a part of speech may hold commas

---
 dictionary/dicbuilder.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 3f566fa..10df3a6 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -44,11 +44,12 @@ type PosIdStore interface {
 }
 
 type PosTable struct {
-	table    []string
+	table    [][]string
 	contains map[string]int16
 }
 
-func (pt *PosTable) getId(s string) int16 {
+func (pt *PosTable) getId(posstrings []string) int16 {
+	s := fmt.Sprintf("%q", posstrings)
 	id, ok := pt.contains[s]
 	if ok {
 		return id
@@ -58,12 +59,12 @@ func (pt *PosTable) getId(s string) int16 {
 	}
 	id = int16(len(pt.table))
 	pt.contains[s] = id
-	pt.table = append(pt.table, s)
+	pt.table = append(pt.table, posstrings)
 	return id
 }
 
 func (pt *PosTable) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
+	return pt.getId(posstrings)
 }
 
 func (pt *PosTable) GetPartOfSpeechSize() int {
@@ -661,8 +662,7 @@ func (dicbuilder *DictionaryBuilder) convertPOSTable(postable *PosTable) error {
 	}
 
 	for _, pos := range postable.table {
-		ts := strings.Split(pos, ",")
-		for _, t := range ts {
+		for _, t := range pos {
 			err := dicbuilder.writeString(t)
 			if err != nil {
 				return err
-- 
2.43.0

