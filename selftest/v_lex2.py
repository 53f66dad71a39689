"""More ways to write the lexer."""
PROPS = "C01 C02 C03 C04 C05 C06"
L = "lexer.go"
import re
SRC = open("/repo/lexer.go").read()
def l(*xs): return [(L, xs[i], xs[i+1]) for i in range(0, len(xs), 2)]
def fn(name):
    return re.search(r"^func (\([^)]*\) )?%s\(.*?^}\n" % name, SRC, re.S | re.M).group(0)
def sub(name, *xs):
    s = n = fn(name)
    for i in range(0, len(xs), 2):
        assert n.count(xs[i]) >= 1, (name, xs[i])
        n = n.replace(xs[i], xs[i+1], 1)
    return [(L, s, n)]
IMP = '	"strconv"\n'
def imp(p): return [(L, IMP, IMP + '	"%s"\n' % p)]
HEAD = """		r, _, err := lex.readRune()
		if err == io.EOF {
			return 0
		}
		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}
"""
FAST = """		// fast forward cases
		if isWhitespace(r) {
			lastWasNumber = false
			continue
		} else if r == '-' && lex.peekRune() == '-' {
			lex.discard(1) // second hyphen does not count towards the closing ones
			lex.skipLineComment()
			lastWasNumber = false
			continue
		} else if r == '/' && lex.peekRune() == '*' {
			lex.discard(1) // asterisk does not count towards the closing one
			lex.skipBlockComment()
			lastWasNumber = false
			continue
		}
"""
WORD = """			if unicode.IsUpper(r) {
				code, exists := RESERVED_WORDS[content]
				if exists {
					return code
				} else {
					lval.name = content
					return TYPEORMODULEREFERENCE
				}
			} else {
				lval.name = content
				return VALUEIDENTIFIER
			}
"""
SYMS = [("OPEN_CURLY","{"),("CLOSE_CURLY","}"),("LESS","<"),("GREATER",">"),("COMMA",","),("DOT","."),("OPEN_ROUND","("),("CLOSE_ROUND",")"),("OPEN_SQUARE","["),("CLOSE_SQUARE","]"),("MINUS","-"),("COLON",":"),("EQUALS","="),("QUOTATION_MARK",'\\"'),("APOSTROPHE","'"),("SEMICOLON",";"),("AT","@"),("PIPE","|"),("EXCLAMATION","!"),("CARET","^")]
QUIET = [
 ("head-nested", l(HEAD, """		r, _, err := lex.readRune()
		if err != nil {
			if err == io.EOF {
				return 0
			}
			lex.Error(fmt.Sprintf("Failed to read: %v", err))
			return -1
		}
""")),
 ("head-switch", l(HEAD, """		r, _, err := lex.readRune()
		switch {
		case err == io.EOF:
			return 0
		case err != nil:
			lex.Error("Failed to read: " + err.Error())
			return -1
		}
""")),
 ("fast-switch", l(FAST, """		switch {
		case isWhitespace(r):
			lastWasNumber = false
			continue
		case r == '-' && lex.peekRune() == '-':
			lex.discard(1)
			lex.skipLineComment()
			lastWasNumber = false
			continue
		case r == '/' && lex.peekRune() == '*':
			lex.discard(1)
			lex.skipBlockComment()
			lastWasNumber = false
			continue
		}
""")),
 ("fast-helper", l(FAST, """		if lex.skipped(r) {
			lastWasNumber = false
			continue
		}
""", "func (lex *MyLexer) consumeSingleSymbol(", """// skipped skips white space or a comment that begins with r, if it is there.
func (lex *MyLexer) skipped(r rune) bool {
	switch {
	case isWhitespace(r):
	case r == '-' && lex.peekRune() == '-':
		lex.discard(1)
		lex.skipLineComment()
	case r == '/' && lex.peekRune() == '*':
		lex.discard(1)
		lex.skipBlockComment()
	default:
		return false
	}
	return true
}

func (lex *MyLexer) consumeSingleSymbol(""")),
 ("fast-comment-helper", l(FAST, """		if isWhitespace(r) || lex.skipComment(r) {
			lastWasNumber = false
			continue
		}
""", "func (lex *MyLexer) consumeSingleSymbol(", """// skipComment skips a comment that begins with r.
func (lex *MyLexer) skipComment(r rune) bool {
	if r == '-' && lex.peekRune() == '-' {
		lex.discard(1)
		lex.skipLineComment()
		return true
	}
	if r == '/' && lex.peekRune() == '*' {
		lex.discard(1)
		lex.skipBlockComment()
		return true
	}
	return false
}

func (lex *MyLexer) consumeSingleSymbol(""")),
 ("skip-first", l("	for {\n" + HEAD + "\n" + FAST + "\n		// parse lexem\n", """	r, err := lex.skipBlank(&lastWasNumber)
	if err == io.EOF {
		return 0
	}
	if err != nil {
		lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
		return -1
	}
	{
""", "			return lex.consumeSingleSymbol(r)\n		}\n	}\n}\n", """			return lex.consumeSingleSymbol(r)
		}
	}
}

// skipBlank gives the first character that is no white space and begins no comment.
func (lex *MyLexer) skipBlank(adjacent *bool) (rune, error) {
	for {
		r, _, err := lex.readRune()
		if err != nil {
			return 0, err
		}
		switch {
		case isWhitespace(r):
		case r == '-' && lex.peekRune() == '-':
			lex.discard(1)
			lex.skipLineComment()
		case r == '/' && lex.peekRune() == '*':
			lex.discard(1)
			lex.skipBlockComment()
		default:
			return r, nil
		}
		*adjacent = false
	}
}
""")),
 ("word-helper", l(WORD, "			return wordToken(content, unicode.IsUpper(r), lval)\n", "func (lex *MyLexer) consumeSingleSymbol(", """// wordToken is the token for a word.
func wordToken(word string, upper bool, lval *yySymType) int {
	if upper {
		if code, reserved := RESERVED_WORDS[word]; reserved {
			return code
		}
	}
	lval.name = word
	if upper {
		return TYPEORMODULEREFERENCE
	}
	return VALUEIDENTIFIER
}

func (lex *MyLexer) consumeSingleSymbol(""")),
 ("word-zero", l(WORD, """			lval.name = content
			if !unicode.IsUpper(r) {
				return VALUEIDENTIFIER
			}
			if code := RESERVED_WORDS[content]; code != 0 {
				return code
			}
			return TYPEORMODULEREFERENCE
""")),
 ("word-tok", l(WORD, """			tok := VALUEIDENTIFIER
			if unicode.IsUpper(r) {
				tok = TYPEORMODULEREFERENCE
				if code, ok := RESERVED_WORDS[content]; ok {
					tok = code
				}
			}
			lval.name = content
			return tok
""")),
 ("word-closure", l(WORD, """			named := func(token int) int {
				lval.name = content
				return token
			}
			if !unicode.IsUpper(r) {
				return named(VALUEIDENTIFIER)
			}
			if code, exists := RESERVED_WORDS[content]; exists {
				return code
			}
			return named(TYPEORMODULEREFERENCE)
""")),
 ("last-token", l("	lastWasNumber := lex.lastWasNumber\n	lex.lastWasNumber = false\n", "	lastWasNumber := lex.lastToken == NUMBER\n	lex.lastToken = 0\n", "			lex.lastWasNumber = true\n			return lex.consumeNumber(lval)\n", "			lex.lastToken = NUMBER\n			return lex.consumeNumber(lval)\n", "	lastWasNumber bool\n", "	lastToken     int\n")),
 ("last-wrapper", l("func (lex *MyLexer) Lex(lval *yySymType) int {\n	lastWasNumber := lex.lastWasNumber\n	lex.lastWasNumber = false\n", """func (lex *MyLexer) Lex(lval *yySymType) int {
	token := lex.token(lval, lex.lastWasNumber)
	lex.lastWasNumber = token == NUMBER
	return token
}

func (lex *MyLexer) token(lval *yySymType, lastWasNumber bool) int {
""", "			lex.lastWasNumber = true\n", "")),
 ("digit-first", l("		if unicode.IsLetter(r) {\n			if lastWasNumber", "		if unicode.IsDigit(r) {\n			lex.unreadRune()\n			lex.lastWasNumber = true\n			return lex.consumeNumber(lval)\n		} else if unicode.IsLetter(r) {\n			if lastWasNumber", "		} else if unicode.IsDigit(r) {\n			lex.unreadRune()\n			lex.lastWasNumber = true\n			return lex.consumeNumber(lval)\n		} else if r == ':'", "		} else if r == ':'")),
 ("exp-bit", l("(r == 'e' || r == 'E')", "unicode.ToLower(r) == 'e'")),
 ("exp-or", l("(r == 'e' || r == 'E')", "(r|0x20 == 'e')")),
 ("no-space-symbol", sub("consumeSingleSymbol", "	case ' ': // TODO at which context it can be parsed?\n		return SPACE\n", "")),
 ("symbols-index", [(L, fn("consumeSingleSymbol"), """func (lex *MyLexer) consumeSingleSymbol(r rune) int {
	if i := strings.IndexRune(symbols, r); i >= 0 {
		return symbolTokens[i]
	}
	lex.Error(fmt.Sprintf("Unexpected character: %c", r))
	return -1
}

const symbols = "%s"

var symbolTokens = []int{%s}
""" .replace("%s", "@@").replace("%c", "%c").replace("@@", "".join(s for _, s in SYMS), 1).replace("@@", ", ".join(n for n, _ in SYMS), 1))] + imp("strings")),
 ("symbols-loop", [(L, fn("consumeSingleSymbol"), """func (lex *MyLexer) consumeSingleSymbol(r rune) int {
	for _, s := range symbols {
		if s.char == r {
			return s.token
		}
	}
	lex.Error(fmt.Sprintf("Unexpected character: %c", r))
	return -1
}

var symbols = []struct {
	char  rune
	token int
}{
""" + "".join("	{'%s', %s},\n" % ("\\'" if c == "'" else '"' if c == '\\"' else c, n) for n, c in SYMS) + "}\n")]),
 ("read-early", [(L, fn("readRune"), """func (lex *MyLexer) readRune() (rune, int, error) {
	r, n, err := lex.bufReader.ReadRune()
	if err != nil {
		lex.lastIsCR = false
		lex.checkRead(err)
		return r, n, err
	}
	if r == '\\n' && lex.lastIsCR {
		lex.lastIsCR = false
		return r, n, nil
	}
	if isNewline(r) {
		lex.lineNo++
	}
	lex.lastIsCR = r == '\\r'
	return r, n, nil
}
""")]),
 ("read-count", [(L, fn("readRune"), """func (lex *MyLexer) readRune() (rune, int, error) {
	r, n, err := lex.bufReader.ReadRune()
	lex.countLine(r)
	lex.checkRead(err)
	return r, n, err
}

func (lex *MyLexer) countLine(r rune) {
	switch {
	case !isNewline(r):
	case r == '\\n' && lex.lastIsCR:
	default:
		lex.lineNo++
	}
	lex.lastIsCR = r == '\\r'
}
""")]),
 ("read-two", [(L, fn("readRune"), """func (lex *MyLexer) readRune() (rune, error) {
	r, _, err := lex.bufReader.ReadRune()
	if isNewline(r) && !(r == '\\n' && lex.lastIsCR) {
		lex.lineNo += 1
	}
	lex.lastIsCR = r == '\\r'
	lex.checkRead(err)
	return r, err
}
"""), (L, SRC.replace(fn("readRune"), "@@"), None)]),
 ("unread-saved", l("	lineNo int\n", "	lineNo int\n	// prevLine is lineNo before the last character was read.\n	prevLine int\n") + sub("unreadRune", "	if isNewline(lex.peekRune()) {\n		lex.lineNo -= 1\n	}\n", "	lex.lineNo = lex.prevLine\n") + sub("readRune", "	if isNewline(r) &&", "	lex.prevLine = lex.lineNo\n	if isNewline(r) &&")),
 ("position-struct", [(L, SRC, SRC.replace("	// lineNo is 0-indexed line number used for error reporting.\n	lineNo int\n	// lastIsCR is set if carriage return was just read, line feed that follows it does not start one more line.\n	lastIsCR bool\n}\n", "	pos position\n}\n\n// position is used for error reporting.\ntype position struct {\n	// line is 0-indexed.\n	line    int\n	afterCR bool\n}\n").replace("lex.lineNo", "lex.pos.line").replace("lex.lastIsCR", "lex.pos.afterCR"))]),
 ("position-method", [(L, SRC, SRC.replace("	// lineNo is 0-indexed line number used for error reporting.\n	lineNo int\n	// lastIsCR is set if carriage return was just read, line feed that follows it does not start one more line.\n	lastIsCR bool\n}\n", """	pos position
}

// position is used for error reporting.
type position struct {
	// line is 0-indexed.
	line    int
	afterCR bool
}

func (p *position) next(r rune) {
	if isNewline(r) && !(r == '\\n' && p.afterCR) {
		p.line++
	}
	p.afterCR = r == '\\r'
}

func (p *position) back(r rune) {
	if isNewline(r) {
		p.line--
	}
	p.afterCR = false
}
""").replace("""	if isNewline(r) && !(r == '\\n' && lex.lastIsCR) {
		lex.lineNo += 1
	}
	lex.lastIsCR = r == '\\r'
""", "	lex.pos.next(r)\n").replace("""	if isNewline(lex.peekRune()) {
		lex.lineNo -= 1
	}
	lex.lastIsCR = false
""", "	lex.pos.back(lex.peekRune())\n").replace("lex.lineNo+1", "lex.pos.line+1"))]),
 ("constructor", [("parser.go", '	"bufio"\n', ''), ("parser.go", "	lex := &MyLexer{}\n	lex.bufReader = bufio.NewReader(reader)\n", "	lex := newLexer(reader)\n"), (L, "// Lex implements yyLexer.\n", "func newLexer(reader io.Reader) *MyLexer {\n	return &MyLexer{bufReader: bufio.NewReader(reader)}\n}\n\n// Lex implements yyLexer.\n")]),
 ("constructor-size", [("parser.go", "	lex.bufReader = bufio.NewReader(reader)\n", "	lex.bufReader = bufio.NewReaderSize(reader, 64*1024)\n")]),
 ("word-check-after", [(L, fn("consumeWord"), """func (lex *MyLexer) consumeWord() (string, error) {
	r, _, _ := lex.bufReader.ReadRune()
	word := []rune{r}
	for {
		r, _, err := lex.readRune()
		if err == io.EOF {
			break
		}
		if err != nil {
			return "", fmt.Errorf("failed to read: %v", err.Error())
		}
		if !isIdentifierChar(r) {
			lex.unreadRune()
			break
		}
		if r == '-' && word[len(word)-1] == '-' {
			return "", fmt.Errorf("token can not contain two hyphens in a row, got %v", string(word)+"-")
		}
		word = append(word, r)
	}
	if word[len(word)-1] == '-' {
		return "", fmt.Errorf("token can not end on hyphen, got %v", string(word))
	}
	return string(word), nil
}
""")]),
 ("word-suffix", sub("consumeWord", "label[len(label)-1] == '-'", "strings.HasSuffix(label, \"-\")") + imp("strings")),
 ("word-no-dead", sub("consumeWord", """		if !isIdentifierChar(r) {
			acc.WriteRune(r)
			return "", fmt.Errorf("expected valid identifier char, got '%c' while reading '%v'", r, acc.String())
		}
""", "")),
 ("word-lastr", sub("consumeWord", "lastR == '-' && r == '-'", "lastR == r && r == '-'")),
 ("word-hyphen-flag", sub("consumeWord", "	lastR := r\n", "	lastIsHyphen := false // words begin with letters\n", "lastR == '-' && r == '-'", "lastIsHyphen && r == '-'", "		lastR = r\n", "		lastIsHyphen = r == '-'\n")),
 ("word-err-split", sub("consumeWord", "if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {", "if err == io.EOF || err == nil && !isIdentifierChar(r) {")),
 ("num-builder", sub("consumeNumber", "	acc := bytes.NewBufferString(\"\")\n", "	var acc strings.Builder\n") + imp("strings")),
 ("num-loop-cond", [(L, fn("consumeNumber"), """func (lex *MyLexer) consumeNumber(lval *yySymType) int {
	acc := bytes.NewBufferString("")
	r, _, err := lex.bufReader.ReadRune()
	for err == nil && unicode.IsDigit(r) {
		acc.WriteRune(r)
		r, _, err = lex.readRune()
	}
	if err != nil && err != io.EOF {
		lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
		return -1
	}
	if err == nil {
		lex.unreadRune()
	}
	i, err := strconv.Atoi(acc.String())
	if err != nil {
		lex.Error(fmt.Sprintf("Failed to parse number: %v", err.Error()))
		return -1
	}
	lval.numberRepr = acc.String()
	lval.Number = Number(i)
	return NUMBER
}
""")]),
 ("num-digits-helper", [(L, fn("consumeNumber"), """func (lex *MyLexer) consumeNumber(lval *yySymType) int {
	repr, err := lex.consumeDigits()
	if err != nil {
		lex.Error(err.Error())
		return -1
	}
	i, err := strconv.Atoi(repr)
	if err != nil {
		lex.Error(fmt.Sprintf("Failed to parse number: %v", err.Error()))
		return -1
	}
	lval.numberRepr, lval.Number = repr, Number(i)
	return NUMBER
}

func (lex *MyLexer) consumeDigits() (string, error) {
	var digits []rune
	for {
		r, _, err := lex.readRune()
		switch {
		case err == io.EOF:
			return string(digits), nil
		case err != nil:
			return "", fmt.Errorf("failed to read: %v", err)
		case !unicode.IsDigit(r):
			lex.unreadRune()
			return string(digits), nil
		}
		digits = append(digits, r)
	}
}
""")]),
 ("digit-not-unread", [(L, "		} else if unicode.IsDigit(r) {\n			lex.unreadRune()\n			lex.lastWasNumber = true\n			return lex.consumeNumber(lval)\n", "		} else if unicode.IsDigit(r) {\n			lex.lastWasNumber = true\n			return lex.consumeNumber(lval, r)\n")] + sub("consumeNumber", "(lval *yySymType) int {\n	r, _, err := lex.bufReader.ReadRune()\n	if err != nil {\n		lex.Error(err.Error())\n		return -1\n	}\n", "(lval *yySymType, first rune) int {\n", "	acc.WriteRune(r)\n	for", "	acc.WriteRune(first)\n	for")),
 ("unread-plain", sub("unreadRune", "	r := lex.bufReader.UnreadRune()\n	// TODO(nsokolov): against guidelines, remove panic\n	if r != nil {\n		panic(r.Error())\n	}\n", "	if err := lex.bufReader.UnreadRune(); err != nil {\n		panic(err.Error())\n	}\n", "	return r\n", "	return nil\n")),
 ("error-if", [(L, fn("Error"), """func (lex *MyLexer) Error(e string) {
	if lex.err == nil {
		lex.err = fmt.Errorf("line %d: %s", lex.lineNo+1, e)
	}
}
""")]),
 ("error-errors", [(L, fn("Error"), """func (lex *MyLexer) Error(e string) {
	if lex.err == nil {
		lex.err = errors.New("line " + strconv.Itoa(lex.lineNo+1) + ": " + e)
	}
}
"""), (L, '	"bytes"\n', '	"bytes"\n	"errors"\n')]),
 ("errorf-helper", [(L, SRC, SRC.replace("lex.Error(fmt.Sprintf(", "lex.errorf((").replace("lex.errorf((\"Failed to read: %v\", err.Error()))", "lex.errorf(\"Failed to read: %v\", err)").replace("lex.errorf((\"Failed to parse number: %v\", err.Error()))", "lex.errorf(\"Failed to parse number: %v\", err)").replace("lex.errorf((\"Unexpected character: %c\", r))", "lex.errorf(\"Unexpected character: %c\", r)").replace("func isWhitespace(", """func (lex *MyLexer) errorf(format string, args ...interface{}) {
	lex.Error(fmt.Sprintf(format, args...))
}

func isWhitespace("""))]),
 ("fail-helper", [(L, SRC, re.sub(r"lex\.Error\((.*)\)\n(\t+)return -1\n", r"return lex.fail(\1)\n", SRC).replace("func isWhitespace(", """func (lex *MyLexer) fail(e string) int {
	lex.Error(e)
	return -1
}

func isWhitespace("""))]),
 ("ident-switch", [(L, fn("isIdentifierChar"), """func isIdentifierChar(r rune) bool {
	switch {
	case unicode.IsLetter(r), unicode.IsDigit(r):
		return true
	}
	return r == '-'
}
""")]),
 ("ident-in", [(L, fn("isIdentifierChar"), """func isIdentifierChar(r rune) bool {
	return r == '-' || unicode.In(r, unicode.Letter, unicode.Digit)
}
""")]),
 ("newline-short", [(L, fn("isNewline"), """func isNewline(r rune) bool {
	return '\\n' <= r && r <= '\\r'
}
"""), (L, fn("isWhitespace"), """func isWhitespace(r rune) bool {
	return isNewline(r) || r == '\\t' || r == ' '
}
""")]),
 ("line-switch", [(L, fn("skipLineComment"), """func (lex *MyLexer) skipLineComment() {
	for hyphens := 0; hyphens < 2; {
		r, _, err := lex.readRune()
		switch {
		case err != nil, isNewline(r):
			return
		case r == '-':
			hyphens++
		default:
			hyphens = 0
		}
	}
}
""")]),
 ("line-done", [(L, fn("skipLineComment"), """func (lex *MyLexer) skipLineComment() {
	lastIsHyphen, done := false, false
	for !done {
		r, _, err := lex.readRune()
		isHyphen := r == '-'
		done = err != nil || isNewline(r) || isHyphen && lastIsHyphen
		lastIsHyphen = isHyphen
	}
}
""")]),
 ("block-switch", [(L, fn("skipBlockComment"), """func (lex *MyLexer) skipBlockComment() {
	var last rune
	for {
		r, _, err := lex.readRune()
		if err == io.EOF {
			lex.Error("unterminated block comment")
		}
		if err != nil {
			return
		}
		switch {
		case r == '/' && last == '*':
			return
		case r == '*' && last == '/':
			lex.skipBlockComment()
			last = 0
		default:
			last = r
		}
	}
}
""")]),
 ("block-depth", [(L, fn("skipBlockComment"), """func (lex *MyLexer) skipBlockComment() {
	last := rune(0)
	for depth := 1; depth > 0; {
		r, _, err := lex.readRune()
		if err != nil {
			if err == io.EOF {
				lex.Error("unterminated block comment")
			}
			return
		}
		switch {
		case last == '*' && r == '/':
			depth--
			r = 0
		case last == '/' && r == '*':
			depth++
			r = 0
		}
		last = r
	}
}
""")]),
 ("peek-inline", sub("peekRune", "	r, _ := lex.peekRuneE()\n	return r\n", "	r, _, err := lex.bufReader.ReadRune()\n	lex.checkRead(err)\n	if err != nil {\n		return r\n	}\n	lex.bufReader.UnreadRune()\n	return r\n") + [(L, fn("peekRuneE"), "")]),
 ("peek-is", [(L, SRC, re.sub(r"lex\.peekRune\(\) == ('.')", r"lex.nextIs(\1)", SRC).replace("func isWhitespace(", """func (lex *MyLexer) nextIs(want rune) bool {
	return lex.peekRune() == want
}

func isWhitespace("""))]),
 ("accept", [(L, SRC, SRC.replace("""		} else if r == ':' && lex.peekRunes(2) == ":=" {
			lex.discard(2)
			return ASSIGNMENT
		} else if r == '.' && lex.peekRunes(2) == ".." {
			lex.discard(2)
			return ELLIPSIS
		} else if r == '.' && lex.peekRune() == '.' {
			lex.discard(1)
			return RANGE_SEPARATOR
		} else if r == '[' && lex.peekRune() == '[' {
			lex.discard(1)
			return LEFT_VERSION_BRACKETS
		} else if r == ']' && lex.peekRune() == ']' {
			lex.discard(1)
			return RIGHT_VERSION_BRACKETS
		} else {
			return lex.consumeSingleSymbol(r)
		}
""", """		}
		switch {
		case r == ':' && lex.accept(":="):
			return ASSIGNMENT
		case r == '.' && lex.accept(".."):
			return ELLIPSIS
		case r == '.' && lex.accept("."):
			return RANGE_SEPARATOR
		case r == '[' && lex.accept("["):
			return LEFT_VERSION_BRACKETS
		case r == ']' && lex.accept("]"):
			return RIGHT_VERSION_BRACKETS
		}
		return lex.consumeSingleSymbol(r)
""").replace("func isWhitespace(", """// accept discards text if it is what comes next.
func (lex *MyLexer) accept(text string) bool {
	if lex.peekRunes(len(text)) != text {
		return false
	}
	lex.discard(len(text))
	return true
}

func isWhitespace("""))]),
 ("multi-switch-r", [(L, SRC, SRC.replace("""		} else if r == ':' && lex.peekRunes(2) == ":=" {
			lex.discard(2)
			return ASSIGNMENT
		} else if r == '.' && lex.peekRunes(2) == ".." {
			lex.discard(2)
			return ELLIPSIS
		} else if r == '.' && lex.peekRune() == '.' {
			lex.discard(1)
			return RANGE_SEPARATOR
		} else if r == '[' && lex.peekRune() == '[' {
			lex.discard(1)
			return LEFT_VERSION_BRACKETS
		} else if r == ']' && lex.peekRune() == ']' {
			lex.discard(1)
			return RIGHT_VERSION_BRACKETS
		} else {
			return lex.consumeSingleSymbol(r)
		}
""", """		}
		switch r {
		case ':':
			if lex.peekRunes(2) == ":=" {
				lex.discard(2)
				return ASSIGNMENT
			}
		case '.':
			switch next := lex.peekRunes(2); {
			case next == "..":
				lex.discard(2)
				return ELLIPSIS
			case strings.HasPrefix(next, "."):
				lex.discard(1)
				return RANGE_SEPARATOR
			}
		case '[', ']':
			if lex.peekRune() == r {
				lex.discard(1)
				if r == '[' {
					return LEFT_VERSION_BRACKETS
				}
				return RIGHT_VERSION_BRACKETS
			}
		}
		return lex.consumeSingleSymbol(r)
""").replace(IMP, IMP + '	"strings"\n'))]),
 ("tokens-split", [(L, SRC, SRC.replace("""			if lastWasNumber && (r == 'e' || r == 'E') {
				return EXPONENT
			}
			lex.unreadRune()
			content, err := lex.consumeWord()
			if err != nil {
				lex.Error(err.Error())
				return -1
			}
""" + WORD, """			if lastWasNumber && (r == 'e' || r == 'E') {
				return EXPONENT
			}
			lex.unreadRune()
			return lex.consumeReference(lval)
""").replace("func (lex *MyLexer) consumeSingleSymbol(", """// consumeReference reads a reserved word, a reference or an identifier.
func (lex *MyLexer) consumeReference(lval *yySymType) int {
	word, err := lex.consumeWord()
	if err != nil {
		lex.Error(err.Error())
		return -1
	}
	first, _ := utf8.DecodeRuneInString(word)
	if !unicode.IsUpper(first) {
		lval.name = word
		return VALUEIDENTIFIER
	}
	if code, ok := RESERVED_WORDS[word]; ok {
		return code
	}
	lval.name = word
	return TYPEORMODULEREFERENCE
}

func (lex *MyLexer) consumeSingleSymbol("""))]),
 ("reserved-func", [(L, SRC, SRC.replace("	RESERVED_WORDS map[string]int = map[string]int{\n", "	RESERVED_WORDS = map[string]int{\n"))]),
]
# the number of bytes read is not used
_s = SRC.replace("r, _, err := lex.readRune()", "r, err := lex.readRune()").replace(fn("readRune"), """func (lex *MyLexer) readRune() (rune, error) {
	r, _, err := lex.bufReader.ReadRune()
	if isNewline(r) && !(r == '\\n' && lex.lastIsCR) {
		lex.lineNo += 1
	}
	lex.lastIsCR = r == '\\r'
	lex.checkRead(err)
	return r, err
}
""")
QUIET = [(n, [(L, SRC, _s)]) if n == "read-two" else (n, ed) for n, ed in QUIET]
RW = "RESERVED_WORDS[content]"
LOUD = [
 ("cr-sticky", "C06", sub("readRune", "	lex.lastIsCR = r == '\\r'\n", "	if isNewline(r) {\n		lex.lastIsCR = r == '\\r'\n	}\n")),
 ("cr-forgotten", "C06", sub("readRune", "	lex.lastIsCR = r == '\\r'\n", "	if !isWhitespace(r) || r == '\\r' {\n		lex.lastIsCR = r == '\\r'\n	}\n")),
 ("unread-lf-only", "C06", sub("unreadRune", "isNewline(lex.peekRune())", "lex.peekRune() == '\\n'")),
 ("unread-keeps-cr", "-", sub("unreadRune", "	lex.lastIsCR = false\n", "")),
 ("lf-after-lf", "C06", sub("readRune", "lex.lastIsCR = r == '\\r'", "lex.lastIsCR = isNewline(r)")),
 ("line-zero", "C06", sub("Error", "lex.lineNo+1", "lex.lineNo")),
 ("line-cap", "C06", sub("Error", "lex.lineNo+1", "lex.lineNo%100000+1")),
 ("title-case", "C04", sub("Lex", "unicode.IsUpper(r)", "!unicode.IsLower(r)")),
 ("ident-number", "C04", sub("isIdentifierChar", "unicode.IsDigit", "unicode.IsNumber")),
 ("ascii-letters", "C04", sub("Lex", "if unicode.IsLetter(r) {", "if r < 0x250 && unicode.IsLetter(r) {")),
 ("bom", "C04", sub("Lex", "if isWhitespace(r) {", "if isWhitespace(r) || r == 0xfeff {")),
 ("rune-error", "C04", sub("Lex", "if isWhitespace(r) {", "if isWhitespace(r) || r == utf8.RuneError {")),
 ("nul", "C04", sub("Lex", "if isWhitespace(r) {", "if isWhitespace(r) || r == 0 {")),
 ("nel-space", "C04", sub("isWhitespace", "case 32:", "case 32, 0x85:")),
 ("nested-resets", "C05", sub("skipBlockComment", "				lex.skipBlockComment()\n", "				lex.skipBlockComment()\n				lastIsClosingStar = false\n				continue\n")),
 ("slash-star-slash", "C05", sub("skipBlockComment", "				lastIsClosingStar = true\n				continue\n", "				lastIsClosingStar = true\n				lastIsOpeningSlash = true\n				continue\n")),
 ("star-kept", "C05", sub("skipBlockComment", "		lastIsClosingStar = false\n		lastIsOpeningSlash = false\n", "		if !isWhitespace(r) {\n			lastIsClosingStar = false\n		}\n		lastIsOpeningSlash = false\n")),
 ("word-hyphen-eof", "C04", sub("consumeWord", "if label[len(label)-1] == '-' {", "if err == nil && label[len(label)-1] == '-' {")),
 ("word-hyphens-anywhere", "C04", sub("consumeWord", "		lastR = r\n", "		if r == '-' {\n			lastR = r\n		}\n")),
 ("word-long", "C04", sub("consumeWord", "		acc.WriteRune(r)\n		if lastR", "		acc.WriteRune(r)\n		if acc.Len() > 64 {\n			return \"\", fmt.Errorf(\"token is too long, got %v\", acc.String())\n		}\n		if lastR")),
 ("word-cut", "C04", sub("consumeWord", "		acc.WriteRune(r)\n		if lastR", "		if acc.Len() < 255 {\n			acc.WriteRune(r)\n		}\n		if lastR")),
 ("reserved-short", "C04", sub("Lex", "				if exists {", "				if exists && len(content) < 16 {")),
 ("reserved-upper", "C04", sub("Lex", RW, "RESERVED_WORDS[strings.ToUpper(content)]") + imp("strings")),
 ("name-stale", "C04", sub("Lex", "					lval.name = content\n					return TYPE", "					if lval.name == \"\" {\n						lval.name = content\n					}\n					return TYPE")),
 ("name-lost", "C04", sub("Lex", "				lval.name = content\n				return VALUE", "				return VALUE")),
 ("assign-one", "C04", sub("Lex", "			lex.discard(2)\n			return ASSIGNMENT", "			lex.discard(1)\n			return ASSIGNMENT")),
 ("peek-three-bytes", "C02", sub("peekRunes", "l <= utf8.UTFMax", "l < utf8.UTFMax")),
 ("peek-bytes", "-", sub("peekRunes", "				n -= 1\n", "				n -= size\n")),
 ("num-trim", "C04", sub("consumeNumber", "strconv.Atoi(repr)", "strconv.Atoi(strings.TrimLeft(repr, \"0\"))") + imp("strings")),
 ("num-repr-trim", "C04", sub("consumeNumber", "lval.numberRepr = repr", "lval.numberRepr = strconv.Itoa(i)")),
 ("num-clamp", "C04", sub("consumeNumber", "			if err != nil {\n				lex.Error(fmt.Sprintf(\"Failed to parse", "			if err != nil && i == 0 {\n				lex.Error(fmt.Sprintf(\"Failed to parse")),
 ("num-underscore", "C04", sub("consumeNumber", "		acc.WriteRune(r)\n	}\n}", "		if acc.Len() < 18 {\n			acc.WriteRune(r)\n		}\n	}\n}")),
 ("num-read-error", "C01", sub("consumeNumber", "err == io.EOF || !unicode.IsDigit(r)", "err != nil || !unicode.IsDigit(r)") + sub("checkRead", "err != nil && err != io.EOF", "err != nil && err != io.EOF && err != io.ErrNoProgress")),
 ("unexpected-eof", "C01", sub("checkRead", "err != nil && err != io.EOF", "err != nil && err != io.EOF && err != io.ErrUnexpectedEOF") + sub("Lex", "if err == io.EOF {", "if err == io.EOF || err == io.ErrUnexpectedEOF {")),
 ("symbol-passed", "C04", sub("consumeSingleSymbol", "	default:\n", "	case '%':\n		return int(r)\n	default:\n")),
 ("symbol-zero", "C01", sub("consumeSingleSymbol", "	default:\n		lex.Error", "	case 26:\n		return 0\n	default:\n		lex.Error")),
 ("exp-any", "C04", sub("Lex", "			lastWasNumber = false\n			continue\n		} else if r == '-' && lex", "			continue\n		} else if r == '-' && lex")),
 ("exp-lower", "C04", sub("Lex", "(r == 'e' || r == 'E')", "r == 'E'")),
 ("exp-digit", "C04", sub("Lex", "(r == 'e' || r == 'E')", "unicode.ToLower(r) == 'e' && unicode.IsDigit(lex.peekRune())")),
 ("num-flag", "C04", sub("Lex", "	lex.lastWasNumber = false\n", "")),
 ("comment-at-eof", "C05", sub("skipBlockComment", "		if err == io.EOF {\n			lex.Error", "		if err == io.EOF && !lastIsClosingStar {\n			lex.Error")),
 ("comment-line-slash", "C05", sub("Lex", "r == '/' && lex.peekRune() == '*'", "r == '/' && (lex.peekRune() == '*' || lex.peekRune() == '/')")),
 ("range-first", "C04", sub("Lex", "r == '.' && lex.peekRunes(2) == \"..\"", "r == '.' && lex.peekRunes(3) == \"..\"")),
 ("brackets-space", "C04", sub("Lex", "r == ']' && lex.peekRune() == ']'", "r == ']' && lex.lastIsCR || r == ']' && lex.peekRune() == ']'")),
]
LOUD = [(a, c, b) for a, b, c in LOUD]
