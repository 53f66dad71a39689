PROPS = "C01 C02 C03 C04 C05 C06"
L = "lexer.go"
def l(*xs): return [(L, xs[i], xs[i+1]) for i in range(0, len(xs), 2)]

LINE = """	lastIsHyphen := false
	for {
		r, _, err := lex.readRune()
		if isNewline(r) || err != nil {
			return
		} else if r == '-' {
			if lastIsHyphen {
				return
			}
			lastIsHyphen = true
		} else {
			lastIsHyphen = false
		}
	}
"""
BLOCK = """	lastIsOpeningSlash := false
	lastIsClosingStar := false
	for {
		r, _, err := lex.readRune()
		if err == io.EOF {
			lex.Error("unterminated block comment")
		}
		if err != nil {
			return
		}
		if r == '/' {
			if lastIsClosingStar {
				return
			} else {
				lastIsOpeningSlash = true
				continue
			}
		} else if r == '*' {
			if lastIsOpeningSlash {
				lex.skipBlockComment()
			} else {
				lastIsClosingStar = true
				continue
			}
		}
		lastIsClosingStar = false
		lastIsOpeningSlash = false
	}
"""
WORDTAIL = """		if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {
			label := acc.String()
			if label[len(label)-1] == '-' {
				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
			}
			if err == nil {
				lex.unreadRune()
			}
			return label, nil
		}
		if err != nil {
			return "", fmt.Errorf("failed to read: %v", err.Error())
		}
		if !isIdentifierChar(r) {
			acc.WriteRune(r)
			return "", fmt.Errorf("expected valid identifier char, got '%c' while reading '%v'", r, acc.String())
		}
		acc.WriteRune(r)
"""
PEEKS = """	acc := bytes.NewBufferString("")
	pos := 0
	for n > 0 {
		for l := 1; l <= utf8.UTFMax; l++ {
			buf, err := lex.bufReader.Peek(pos + l)
			if pos+l <= len(buf) && utf8.FullRune(buf[pos:pos+l]) {
				r, size := utf8.DecodeRune(buf[pos : pos+l])
				acc.WriteRune(r)
				pos += size
				n -= 1
				break
			}
			if err != nil { // TODO if it is not a full rune, will swallow EOF
				lex.checkRead(err)
				return acc.String()
			}
		}
	}
	return acc.String()
"""
ISWS = """	switch x := int(r); x {
	//HORIZONTAL TABULATION (9)
	case 9:
		return true
	//LINE FEED (10)
	case 10:
		return true
	//VERTICAL TABULATION (11)
	case 11:
		return true
	//FORM FEED (12)
	case 12:
		return true
	//CARRIAGE RETURN (13)
	case 13:
		return true
	//SPACE (32)
	case 32:
		return true
	default:
		return false
	}
"""
NUMTAIL = """		if err == io.EOF || !unicode.IsDigit(r) {
			if err == nil && !unicode.IsDigit(r) {
				lex.unreadRune()
			}
			repr := acc.String()
			i, err := strconv.Atoi(repr)
			if err != nil {
				lex.Error(fmt.Sprintf("Failed to parse number: %v", err.Error()))
				return -1
			}
			lval.numberRepr = repr
			lval.Number = Number(i)
			return NUMBER
		}
"""
MULTI = """		} else if r == ':' && lex.peekRunes(2) == ":=" {
			lex.discard(2)
			return ASSIGNMENT
		} else if r == '.' && lex.peekRunes(2) == ".." {
			lex.discard(2)
			return ELLIPSIS
		} else if r == '.' && lex.peekRune() == '.' {
			lex.discard(1)
			return RANGE_SEPARATOR
		} else if r == '[' && lex.peekRune() == '[' {
			lex.discard(1)
			return LEFT_VERSION_BRACKETS
		} else if r == ']' && lex.peekRune() == ']' {
			lex.discard(1)
			return RIGHT_VERSION_BRACKETS
		} else {
			return lex.consumeSingleSymbol(r)
		}
"""
COMMENTS = """		} else if r == '-' && lex.peekRune() == '-' {
			lex.discard(1) // second hyphen does not count towards the closing ones
			lex.skipLineComment()
			lastWasNumber = false
			continue
		} else if r == '/' && lex.peekRune() == '*' {
			lex.discard(1) // asterisk does not count towards the closing one
			lex.skipBlockComment()
			lastWasNumber = false
			continue
		}
"""
QUIET = [
 ("line-cr-flag", l("	lex.lastIsCR = false\n	return r", "	return r")),
 ("line-state-int", l(LINE, """	hyphens := 0
	for hyphens < 2 {
		r, _, err := lex.readRune()
		if err != nil || isNewline(r) {
			return
		}
		if r == '-' {
			hyphens++
		} else {
			hyphens = 0
		}
	}
""")),
 ("line-prev", l(LINE, """	var prev rune
	for {
		r, _, err := lex.readRune()
		if err != nil || isNewline(r) || (prev == '-' && r == '-') {
			return
		}
		prev = r
	}
""")),
 ("line-peek", l(LINE, """	for {
		r, _, err := lex.readRune()
		if err != nil || isNewline(r) {
			return
		}
		if r == '-' && lex.peekRune() == '-' {
			lex.discard(1)
			return
		}
	}
""")),
 ("block-counter", l(BLOCK, """	depth := 1
	var prev rune
	for depth > 0 {
		r, _, err := lex.readRune()
		if err != nil {
			if err == io.EOF {
				lex.Error("unterminated block comment")
			}
			return
		}
		switch {
		case prev == '*' && r == '/':
			depth--
			prev = 0
		case prev == '/' && r == '*':
			depth++
			prev = 0
		default:
			prev = r
		}
	}
""")),
 ("block-prev", l(BLOCK, """	prev := rune(0)
	for {
		r, _, err := lex.readRune()
		if err == io.EOF {
			lex.Error("unterminated block comment")
			return
		}
		if err != nil {
			return
		}
		if r == '/' && prev == '*' {
			return
		}
		if r == '*' && prev == '/' {
			lex.skipBlockComment()
			prev = 0
			continue
		}
		prev = r
	}
""")),
 ("block-peek", l(BLOCK, """	for {
		r, _, err := lex.readRune()
		if err != nil {
			if err == io.EOF {
				lex.Error("unterminated block comment")
			}
			return
		}
		switch r {
		case '*':
			if lex.peekRune() == '/' {
				lex.discard(1)
				return
			}
		case '/':
			if lex.peekRune() == '*' {
				lex.discard(1)
				lex.skipBlockComment()
			}
		}
	}
""")),
 ("block-bool", l("skipBlockComment() {", "skipBlockComment() bool {", "			lex.Error(\"unterminated block comment\")\n", "			lex.Error(\"unterminated block comment\")\n			return false\n",
   "		if err != nil {\n			return\n		}\n		if r == '/' {\n			if lastIsClosingStar {\n				return\n", "		if err != nil {\n			return false\n		}\n		if r == '/' {\n			if lastIsClosingStar {\n				return true\n",
   "				lex.skipBlockComment()\n			} else {", "				if !lex.skipBlockComment() {\n					return false\n				}\n			} else {",
   "			lex.skipBlockComment()\n			lastWasNumber = false", "			if !lex.skipBlockComment() {\n				return -1\n			}\n			lastWasNumber = false")),
 ("ws-short", l(ISWS, "	return r >= 9 && r <= 13 || r == ' '\n")),
 ("ws-strings", l(ISWS, "	return strings.ContainsRune(\" \\t\\n\\v\\f\\r\", r)\n", '	"strconv"\n', '	"strconv"\n	"strings"\n')),
 ("ws-switch", l(ISWS, "	switch r {\n	case '\\t', '\\n', '\\v', '\\f', '\\r', ' ':\n		return true\n	}\n	return false\n")),
 ("ws-newline", l(ISWS, "	return r == 9 || r == 32 || isNewline(r)\n")),
 ("word-builder", l('	r, _, _ := lex.bufReader.ReadRune()\n	acc := bytes.NewBufferString("")', '	r, _, _ := lex.bufReader.ReadRune()\n	acc := &strings.Builder{}', '	"strconv"\n', '	"strconv"\n	"strings"\n')),
 ("word-runes", l('	r, _, _ := lex.bufReader.ReadRune()\n	acc := bytes.NewBufferString("")\n	acc.WriteRune(r)', '	r, _, _ := lex.bufReader.ReadRune()\n	acc := []rune{r}',
    WORDTAIL, """		if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {
			if lastR == '-' {
				return "", fmt.Errorf("token can not end on hyphen, got %v", string(acc))
			}
			if err == nil {
				lex.unreadRune()
			}
			return string(acc), nil
		}
		if err != nil {
			return "", fmt.Errorf("failed to read: %v", err.Error())
		}
		acc = append(acc, r)
""", """two hyphens in a row, got %v", acc.String())""", """two hyphens in a row, got %v", string(acc))""")),
 ("word-concat", l('	r, _, _ := lex.bufReader.ReadRune()\n	acc := bytes.NewBufferString("")\n	acc.WriteRune(r)', '	r, _, _ := lex.bufReader.ReadRune()\n	label := string(r)',
    WORDTAIL, """		if err != nil && err != io.EOF {
			return "", fmt.Errorf("failed to read: %v", err.Error())
		}
		if err != nil || !isIdentifierChar(r) {
			if err == nil {
				lex.unreadRune()
			}
			if strings.HasSuffix(label, "-") {
				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
			}
			return label, nil
		}
		label += string(r)
""", """two hyphens in a row, got %v", acc.String())""", """two hyphens in a row, got %v", label)""", '	"strconv"\n', '	"strconv"\n	"strings"\n')),
 ("word-peek", l(WORDTAIL, """		if err != nil && err != io.EOF {
			return "", fmt.Errorf("failed to read: %v", err.Error())
		}
		if err == io.EOF || !isIdentifierChar(r) {
			if err == nil {
				lex.unreadRune()
			}
			if label := acc.String(); lastR == '-' {
				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
			} else {
				return label, nil
			}
		}
		acc.WriteRune(r)
""")),
 ("word-first-param", l("	r, _, _ := lex.bufReader.ReadRune()\n	acc := bytes", "	acc := bytes", "func (lex *MyLexer) consumeWord() (string, error) {", "func (lex *MyLexer) consumeWord(r rune) (string, error) {",
    "			lex.unreadRune()\n			content, err := lex.consumeWord()", "			content, err := lex.consumeWord(r)")),
 ("num-first-param", l("	r, _, err := lex.bufReader.ReadRune()\n	if err != nil {\n		lex.Error(err.Error())\n		return -1\n	}\n	acc := bytes", "	acc := bytes",
    "func (lex *MyLexer) consumeNumber(lval *yySymType) int {", "func (lex *MyLexer) consumeNumber(r rune, lval *yySymType) int {",
    "			lex.unreadRune()\n			lex.lastWasNumber = true\n			return lex.consumeNumber(lval)", "			lex.lastWasNumber = true\n			return lex.consumeNumber(r, lval)")),
 ("num-split", l(NUMTAIL, """		if err == io.EOF || !unicode.IsDigit(r) {
			if err == nil {
				lex.unreadRune()
			}
			return lex.finishNumber(acc.String(), lval)
		}
""", "// Error implements yyLexer, and", """func (lex *MyLexer) finishNumber(repr string, lval *yySymType) int {
	i, err := strconv.Atoi(repr)
	if err != nil {
		lex.Error(fmt.Sprintf("Failed to parse number: %v", err.Error()))
		return -1
	}
	lval.Number = Number(i)
	lval.numberRepr = repr
	return NUMBER
}

// Error implements yyLexer, and""")),
 ("num-parseint", l("strconv.Atoi(repr)", "strconv.ParseInt(repr, 10, 0)")),
 ("num-parseint64", l("strconv.Atoi(repr)", "strconv.ParseInt(repr, 10, strconv.IntSize)")),
 ("multi-switch", l(MULTI, """		}
		switch {
		case r == ':' && lex.peekRunes(2) == ":=":
			lex.discard(2)
			return ASSIGNMENT
		case r == '.' && lex.peekRunes(2) == "..":
			lex.discard(2)
			return ELLIPSIS
		case r == '.' && lex.peekRune() == '.':
			lex.discard(1)
			return RANGE_SEPARATOR
		case r == '[' && lex.peekRune() == '[':
			lex.discard(1)
			return LEFT_VERSION_BRACKETS
		case r == ']' && lex.peekRune() == ']':
			lex.discard(1)
			return RIGHT_VERSION_BRACKETS
		default:
			return lex.consumeSingleSymbol(r)
		}
""")),
 ("multi-helper", l(MULTI, """		} else if code, ok := lex.consumeMultiSymbol(r); ok {
			return code
		} else {
			return lex.consumeSingleSymbol(r)
		}
""", "func (lex *MyLexer) consumeSingleSymbol", """func (lex *MyLexer) consumeMultiSymbol(r rune) (int, bool) {
	switch r {
	case ':':
		if lex.peekRunes(2) == ":=" {
			lex.discard(2)
			return ASSIGNMENT, true
		}
	case '.':
		if lex.peekRunes(2) == ".." {
			lex.discard(2)
			return ELLIPSIS, true
		}
		if lex.peekRune() == '.' {
			lex.discard(1)
			return RANGE_SEPARATOR, true
		}
	case '[':
		if lex.peekRune() == '[' {
			lex.discard(1)
			return LEFT_VERSION_BRACKETS, true
		}
	case ']':
		if lex.peekRune() == ']' {
			lex.discard(1)
			return RIGHT_VERSION_BRACKETS, true
		}
	}
	return 0, false
}

func (lex *MyLexer) consumeSingleSymbol""")),
 ("multi-follows", l(MULTI, """		}
		if r == ':' && lex.follows(":=") {
			return ASSIGNMENT
		}
		if r == '.' && lex.follows("..") {
			return ELLIPSIS
		}
		if r == '.' && lex.follows(".") {
			return RANGE_SEPARATOR
		}
		if r == '[' && lex.follows("[") {
			return LEFT_VERSION_BRACKETS
		}
		if r == ']' && lex.follows("]") {
			return RIGHT_VERSION_BRACKETS
		}
		return lex.consumeSingleSymbol(r)
""", "func (lex *MyLexer) consumeSingleSymbol", """// follows consumes text if it is what comes next.
func (lex *MyLexer) follows(text string) bool {
	if lex.peekRunes(len(text)) != text {
		return false
	}
	lex.discard(len(text))
	return true
}

func (lex *MyLexer) consumeSingleSymbol""")),
 ("multi-table", l(MULTI, """		}
		for _, m := range multiSymbols {
			if m.first == r && lex.peekRunes(len(m.rest)) == m.rest {
				lex.discard(len(m.rest))
				return m.code
			}
		}
		return lex.consumeSingleSymbol(r)
""", "func (lex *MyLexer) consumeSingleSymbol", """var multiSymbols = []struct {
	first rune
	rest  string
	code  int
}{
	{':', ":=", ASSIGNMENT},
	{'.', "..", ELLIPSIS},
	{'.', ".", RANGE_SEPARATOR},
	{'[', "[", LEFT_VERSION_BRACKETS},
	{']', "]", RIGHT_VERSION_BRACKETS},
}

func (lex *MyLexer) consumeSingleSymbol""")),
 ("peek-bytes", l(PEEKS, """	buf, err := lex.bufReader.Peek(n)
	if err != nil {
		lex.checkRead(err)
	}
	return string(buf)
""", '	"unicode/utf8"\n', "", '	"bytes"\n', '	"bytes"\n')),
 ("peek-runes-one", l("""	r, _, err := lex.bufReader.ReadRune()
	if err == nil {
		lex.bufReader.UnreadRune()
	}
	lex.checkRead(err)
	return r, err
""", """	r, _, err := lex.bufReader.ReadRune()
	if err != nil {
		lex.checkRead(err)
		return r, err
	}
	return r, lex.bufReader.UnreadRune()
""")),
 ("single-map", [(L, "	switch r {\n	case '{':\n		return OPEN_CURLY\n", "	if code, ok := singleSymbols[r]; ok {\n		return code\n	}\n	switch r {\n"),
    (L, "func (lex *MyLexer) consumeSingleSymbol", "var singleSymbols = map[rune]int{'{': OPEN_CURLY, '}': CLOSE_CURLY, '<': LESS}\n\nfunc (lex *MyLexer) consumeSingleSymbol"),
    (L, "	case '}':\n		return CLOSE_CURLY\n	case '<':\n		return LESS\n", "")]),
 ("comments-helper", l(COMMENTS, """		} else if lex.skipComment(r) {
			lastWasNumber = false
			continue
		}
""", "// skipLineComment skips", """// skipComment skips the comment r opens, if it does.
func (lex *MyLexer) skipComment(r rune) bool {
	if r == '-' && lex.peekRune() == '-' {
		lex.discard(1)
		lex.skipLineComment()
		return true
	}
	if r == '/' && lex.peekRune() == '*' {
		lex.discard(1)
		lex.skipBlockComment()
		return true
	}
	return false
}

// skipLineComment skips""")),
 ("comments-peekfirst", l(COMMENTS, """		}
		if r == '-' || r == '/' {
			next := lex.peekRune()
			if r == '-' && next == '-' {
				lex.readRune()
				lex.skipLineComment()
				lastWasNumber = false
				continue
			}
			if r == '/' && next == '*' {
				lex.readRune()
				lex.skipBlockComment()
				lastWasNumber = false
				continue
			}
		}
""")),
 ("letter-helper", l("""			if unicode.IsUpper(r) {
				code, exists := RESERVED_WORDS[content]
				if exists {
					return code
				} else {
					lval.name = content
					return TYPEORMODULEREFERENCE
				}
			} else {
				lval.name = content
				return VALUEIDENTIFIER
			}
""", """			return classifyWord(content, lval)
""", "func (lex *MyLexer) consumeSingleSymbol", """func classifyWord(word string, lval *yySymType) int {
	first, _ := utf8.DecodeRuneInString(word)
	if !unicode.IsUpper(first) {
		lval.name = word
		return VALUEIDENTIFIER
	}
	if code, ok := RESERVED_WORDS[word]; ok {
		return code
	}
	lval.name = word
	return TYPEORMODULEREFERENCE
}

func (lex *MyLexer) consumeSingleSymbol""")),
 ("reserved-any-case", l("""			if unicode.IsUpper(r) {
				code, exists := RESERVED_WORDS[content]
				if exists {
					return code
				} else {
					lval.name = content
					return TYPEORMODULEREFERENCE
				}
			} else {
				lval.name = content
				return VALUEIDENTIFIER
			}
""", """			if code, reserved := RESERVED_WORDS[content]; reserved {
				return code
			}
			lval.name = content
			if unicode.IsUpper(r) {
				return TYPEORMODULEREFERENCE
			}
			return VALUEIDENTIFIER
""")),
 ("read-lines", l("""	if isNewline(r) && !(r == '\\n' && lex.lastIsCR) {
		lex.lineNo += 1
	}
	lex.lastIsCR = r == '\\r'
""", """	lex.countLine(r)
""", "// checkRead makes", """func (lex *MyLexer) countLine(r rune) {
	secondHalf := lex.lastIsCR && r == '\\n'
	lex.lastIsCR = r == '\\r'
	if secondHalf || !isNewline(r) {
		return
	}
	lex.lineNo++
}

// checkRead makes""")),
 ("line-one-based", l("	err := ", "	err := ") if False else l("lex.lineNo+1, e)", "lex.line(), e)", "// checkRead makes", "func (lex *MyLexer) line() int {\n	return lex.lineNo + 1\n}\n\n// checkRead makes")),
 ("error-wrapped", l('	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)', '	lex.err = errors.New(fmt.Sprintf("line %d: %s", lex.lineNo+1, e))', '	"bytes"\n', '	"bytes"\n	"errors"\n')),
 ("error-nested-if", l("	if lex.err != nil {\n		return\n	}\n	lex.err = fmt.Errorf(\"line %v: %v\", lex.lineNo+1, e)", "	if lex.err == nil {\n		lex.err = fmt.Errorf(\"line %v: %v\", lex.lineNo+1, e)\n	}")),
 ("lex-split", l("func (lex *MyLexer) Lex(lval *yySymType) int {\n	lastWasNumber := lex.lastWasNumber\n	lex.lastWasNumber = false\n", "func (lex *MyLexer) Lex(lval *yySymType) int {\n	afterNumber := lex.lastWasNumber\n	lex.lastWasNumber = false\n	return lex.next(lval, afterNumber)\n}\n\nfunc (lex *MyLexer) next(lval *yySymType, lastWasNumber bool) int {\n")),
 ("lex-eof-order", l("		if err == io.EOF {\n			return 0\n		}\n		if err != nil {\n			lex.Error(fmt.Sprintf(\"Failed to read: %v\", err.Error()))\n			return -1\n		}\n\n		// fast", "		if err != nil {\n			if err != io.EOF {\n				lex.Error(fmt.Sprintf(\"Failed to read: %v\", err.Error()))\n				return -1\n			}\n			return 0\n		}\n\n		// fast")),
 ("lex-after-error", l("	lastWasNumber := lex.lastWasNumber\n	lex.lastWasNumber = false\n	for {", "	if lex.err != nil {\n		return 0\n	}\n	lastWasNumber := lex.lastWasNumber\n	lex.lastWasNumber = false\n	for {")),
 ("exp-first", l("		if unicode.IsLetter(r) {\n			if lastWasNumber && (r == 'e' || r == 'E') {\n				return EXPONENT\n			}\n", "		if (r == 'e' || r == 'E') && lastWasNumber {\n			return EXPONENT\n		}\n		if unicode.IsLetter(r) {\n")),
 ("is-ident-order", l("	return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '-'", "	if r == '-' {\n		return true\n	}\n	return unicode.In(r, unicode.Letter, unicode.Digit)")),
 ("discard-read", l("	lex.bufReader.Discard(n)", "	for i := 0; i < n; i++ {\n		lex.bufReader.ReadRune()\n	}")),
 ("discard-noline", l("	lex.bufReader.Discard(n)", "	for ; n > 0; n-- {\n		lex.readRune()\n	}")),
 ("unread-noerr", l("	r := lex.bufReader.UnreadRune()\n	// TODO(nsokolov): against guidelines, remove panic\n	if r != nil {\n		panic(r.Error())\n	}\n", "	err := lex.bufReader.UnreadRune()\n	if err != nil {\n		lex.Error(err.Error())\n		return err\n	}\n", "	lex.lastIsCR = false\n	return r\n", "	lex.lastIsCR = false\n	return nil\n")),
 ("renamed-fields", None),
]
import re
_s = open("/repo/lexer.go").read()
QUIET = [q for q in QUIET if q[1]]
LOUD = [
 ("line-closing-shared", l("			lex.discard(1) // second hyphen does not count towards the closing ones\n", ""), "C05"),
 ("line-three", l("			lastIsHyphen = true\n", "			lastIsHyphen = !lastIsHyphen\n", "			if lastIsHyphen {\n				return\n			}\n", "			if lastIsHyphen && lex.peekRune() != '-' {\n				return\n			}\n"), "C05"),
 ("line-cr", l("		if isNewline(r) || err != nil {\n			return", "		if (isNewline(r) && r != '\\v') || err != nil {\n			return"), "C05"),
 ("block-shared", l("			lex.discard(1) // asterisk does not count towards the closing one\n", ""), "C05"),
 ("block-star-star", l("			} else {\n				lastIsClosingStar = true\n				continue\n", "			} else {\n				lastIsClosingStar = !lastIsClosingStar\n				continue\n"), "C05"),
 ("block-keepslash", l("				lex.skipBlockComment()\n			} else {", "				lex.skipBlockComment()\n				continue\n			} else {"), "C05"),
 ("block-unterminated", l("		if err == io.EOF {\n			lex.Error(\"unterminated block comment\")\n		}\n", ""), "C05"),
 ("exp-after-space", l("		if isWhitespace(r) {\n			lastWasNumber = false\n", "		if isWhitespace(r) {\n			lastWasNumber = lastWasNumber && r != '\\n'\n"), "C04"),
 ("exp-after-comment", l("			lex.skipBlockComment()\n			lastWasNumber = false\n", "			lex.skipBlockComment()\n"), "C04"),
 ("number-e", l("	lex.lastWasNumber = false\n	for {", "	for {"), "C04"),
 ("word-hyphens", l("		lastR = r\n	}", "		if r != '-' || acc.Len() < 40 {\n			lastR = r\n		}\n	}"), "C04"),
 ("word-trailing", l("if label[len(label)-1] == '-' {", "if label[len(label)-1] == '-' && len(label) > 2 {"), "C04"),
 ("num-wrap", l("i, err := strconv.Atoi(repr)", "i, err := strconv.ParseUint(repr, 10, 64)"), "C04"),
 ("num-32", l("i, err := strconv.Atoi(repr)", "i, err := strconv.ParseInt(repr, 10, 32)"), "C04"),
 ("num-base0", l("i, err := strconv.Atoi(repr)", "i, err := strconv.ParseInt(repr, 0, 64)"), "C04"),
 ("reserved-missing", l('		"WITH":             WITH,\n', ""), "C04"),
 ("reserved-wrong", l('		"UNION":            UNION,\n', '		"UNION":            UNIQUE,\n'), "C04"),
 ("reserved-extra", l('		"WITH":             WITH,\n', '		"WITH":             WITH,\n		"WITHOUT":          WITH,\n'), "C04"),
 ("ellipsis-last", l('r == \'.\' && lex.peekRunes(2) == ".."', 'r == \'.\' && lex.lineNo < 70000 && lex.peekRunes(2) == ".."'), "C04"),
 ("bracket-discard", l("		} else if r == ']' && lex.peekRune() == ']' {\n			lex.discard(1)\n", "		} else if r == ']' && lex.peekRune() == ']' {\n"), "C04"),
 ("colon-assign", l("		} else if r == ':' && lex.peekRunes(2) == \":=\" {\n			lex.discard(2)", "		} else if r == ':' && lex.peekRune() == ':' {\n			lex.discard(2)"), "C04"),
 ("symbol-at", l("	case '@':\n		return AT\n", "	case '@', '#':\n		return AT\n"), "C04"),
 ("line-unread", l("	if isNewline(lex.peekRune()) {\n		lex.lineNo -= 1\n	}\n", ""), "C06"),
 ("line-ff", l("if isNewline(r) && !(r == '\\n' && lex.lastIsCR) {", "if isNewline(r) && r != '\\f' && !(r == '\\n' && lex.lastIsCR) {"), "C06"),
 ("line-peek", l("	r, _, err := lex.bufReader.ReadRune()\n	if err == nil {\n		lex.bufReader.UnreadRune()\n	}\n	lex.checkRead(err)\n", "	r, _, err := lex.readRune()\n	if err == nil {\n		lex.bufReader.UnreadRune()\n	}\n	lex.checkRead(err)\n"), "C06"),
 ("err-last", l("	if lex.err != nil {\n		return\n	}\n	lex.err = fmt", "	lex.err = fmt"), "C01"),
 ("err-peek", l("				lex.checkRead(err)\n				return acc.String()", "				return acc.String()"), "C01"),
 ("err-peekrune", l("	lex.checkRead(err)\n	return r, err", "	return r, err"), "C01"),
 ("err-read", l("	lex.checkRead(err)\n	return r, n, err", "	return r, n, err"), "C01"),
 ("err-word", l("			if err != nil {\n				lex.Error(err.Error())\n				return -1\n			}\n			if unicode", "			if err != nil {\n				return -1\n			}\n			if unicode"), "C01"),
 ("block-spin", l("		if err != nil {\n			return\n		}\n		if r == '/' {", "		if err == io.EOF {\n			return\n		}\n		if r == '/' {"), "C02"),
 ("line-spin", l("		if isNewline(r) || err != nil {\n			return", "		if isNewline(r) || err == io.EOF {\n			return"), "C02"),
 ("peek-spin", l("			if err != nil { // TODO if it is not a full rune, will swallow EOF", "			if err == io.EOF {"), "C02"),
 ("num-spin", l("		if err == io.EOF || !unicode.IsDigit(r) {\n", "		if !unicode.IsDigit(r) && err == nil || err == io.EOF {\n", "		if err != nil {\n			lex.Error(fmt.Sprintf(\"Failed to read: %v\", err.Error()))\n			return -1\n		}\n		acc", "		acc"), "C02"),
 ("unread-panic", l("			if err == nil {\n				lex.unreadRune()\n			}\n			return label", "			lex.unreadRune()\n			return label"), "C03"),
 ("unread-panic2", l("			if err == nil && !unicode.IsDigit(r) {", "			if err != io.ErrUnexpectedEOF {"), "C03"),
 ("word-index", l("			if label[len(label)-1] == '-' {", "			if label[len(label)-1] == '-' || label[1] == '_' {"), "C03"),
]
