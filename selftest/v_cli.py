M, W, D, U, L = "cmd/asn1go/main.go", "cmd/ws2bin/main.go", "internal/utils/dump.go", "internal/utils/utils.go", "marshal.go"
def m(*xs): return [(M, xs[i], xs[i+1]) for i in range(0, len(xs), 2)]

OUT = """	output := openOutput(flags.outputName)
	if _, err := output.Write(generated.Bytes()); err != nil {
		failWithError("Failed to write output: %v", err.Error())
	}
	if err := output.Close(); err != nil {
		failWithError("Failed to close output: %v", err.Error())
	}
"""
OPENOUT = """		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
		if err != nil {
			failWithError("File %v can not be written: %v", outputName, err.Error())
		}
		if err := output.Truncate(0); err != nil {
			failWithError("Failed to truncate file: %v", err.Error())
		}
"""
PARAMS = """	params := asn1go.GenParams{
		Package:     flags.packageName,
		IntegerRepr: asn1go.IntegerRepr(flags.defaultIntRepr),
	}
	gen := asn1go.NewCodeGenerator(params)
"""
PROPS = "C23 C24"
QUIET = [
 ("comment", m("func main() {", "// main\nfunc main() {")),
 ("dead", m("	flags := parseFlags(os.Args)\n", "	flags := parseFlags(os.Args)\n	_ = len(flags.inputName)\n")),
 ("helper-main", m("func main() {\n	flags := parseFlags(os.Args)\n", "func main() {\n	run(parseFlags(os.Args))\n}\n\nfunc run(flags flagsType) {\n")),
 ("pointer-flags", m("func parseFlags(args []string) (res flagsType) {", "func parseFlags(args []string) *flagsType {\n	res := &flagsType{}", "		res.outputName = cmd.Arg(1)\n	}\n	if cmd.NArg() > 2 {\n		failWithError(\"%v\", usage)\n	}\n	return res", "		res.outputName = cmd.Arg(1)\n	}\n	if cmd.NArg() > 2 {\n		failWithError(\"%v\", usage)\n	}\n	return res")),
 ("switch-args", m("""	if cmd.NArg() > 0 {
		res.inputName = cmd.Arg(0)
	}
	if cmd.NArg() == 2 {
		res.outputName = cmd.Arg(1)
	}
	if cmd.NArg() > 2 {
		failWithError("%v", usage)
	}
""", """	switch positional := cmd.Args(); len(positional) {
	case 0:
	case 1:
		res.inputName = positional[0]
	case 2:
		res.inputName, res.outputName = positional[0], positional[1]
	default:
		failWithError("%v", usage)
	}
""")),
 ("usage-first", m("""	if cmd.NArg() > 2 {
		failWithError("%v", usage)
	}
	return""", "	return", "	cmd.Parse(args[1:])\n", "	cmd.Parse(args[1:])\n	if cmd.NArg() > 2 {\n		failWithError(\"%v\", usage)\n	}\n")),
 ("string-flags", m("""	cmd.StringVar(&res.packageName, "package", "", "package name for generated code")
	cmd.StringVar(&res.defaultIntRepr, "default-integer-repr", "int64", "Type for numeric types (int64, big.Int)")
	cmd.Parse(args[1:])
""", """	pkg := cmd.String("package", "", "package name for generated code")
	repr := cmd.String("default-integer-repr", "int64", "Type for numeric types (int64, big.Int)")
	cmd.Parse(args[1:])
	res.packageName, res.defaultIntRepr = *pkg, *repr
""")),
 ("flag-package", m("""	cmd := flag.NewFlagSet(args[0], flag.ExitOnError)
	cmd.StringVar(&res.packageName, "package", "", "package name for generated code")
	cmd.StringVar(&res.defaultIntRepr, "default-integer-repr", "int64", "Type for numeric types (int64, big.Int)")
	cmd.Parse(args[1:])
	if cmd.NArg() > 0 {
		res.inputName = cmd.Arg(0)
	}
	if cmd.NArg() == 2 {
		res.outputName = cmd.Arg(1)
	}
	if cmd.NArg() > 2 {""", """	flag.StringVar(&res.packageName, "package", "", "package name for generated code")
	flag.StringVar(&res.defaultIntRepr, "default-integer-repr", "int64", "Type for numeric types (int64, big.Int)")
	flag.Parse()
	if flag.NArg() > 0 {
		res.inputName = flag.Arg(0)
	}
	if flag.NArg() == 2 {
		res.outputName = flag.Arg(1)
	}
	if flag.NArg() > 2 {""")),
 ("o-trunc", m(OPENOUT, """		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
		if err != nil {
			failWithError("File %v can not be written: %v", outputName, err.Error())
		}
""")),
 ("create", m(OPENOUT, """		output, err = os.Create(outputName)
		if err != nil {
			failWithError("File %v can not be written: %v", outputName, err.Error())
		}
""")),
 ("writefile", m(OUT, """	if len(flags.outputName) == 0 {
		if _, err := os.Stdout.Write(generated.Bytes()); err != nil {
			failWithError("Failed to write output: %v", err.Error())
		}
		return
	}
	if err := os.WriteFile(flags.outputName, generated.Bytes(), 0644); err != nil {
		failWithError("Failed to write output: %v", err.Error())
	}
""")),
 ("writeto", m("output.Write(generated.Bytes())", "generated.WriteTo(output)")),
 ("iocopy", m("output.Write(generated.Bytes())", "io.Copy(output, &generated)", '	"os"\n', '	"io"\n	"os"\n')),
 ("writestring", m("output.Write(generated.Bytes())", "output.WriteString(generated.String())")),
 ("fprint", m("output.Write(generated.Bytes())", 'fmt.Fprint(output, generated.String())')),
 ("bufio", m("	if _, err := output.Write(generated.Bytes()); err != nil {", "	writer := bufio.NewWriter(output)\n	writer.Write(generated.Bytes())\n	if err := writer.Flush(); err != nil {", '	"bytes"\n', '	"bufio"\n	"bytes"\n')),
 ("defer-close-input", m("	input := openInput(flags.inputName)\n", "	input := openInput(flags.inputName)\n	defer input.Close()\n", "	input.Close()\n\n", "")),
 ("close-after-parse", m("	input.Close()\n\n", "", "	params := asn1go.GenParams", "	input.Close()\n	params := asn1go.GenParams")),
 ("buffered-input", m("asn1go.ParseStream(input)", "asn1go.ParseStream(bufio.NewReader(input))", '	"bytes"\n', '	"bufio"\n	"bytes"\n')),
 ("read-all", m("	module, err := asn1go.ParseStream(input)\n", "	text, err := io.ReadAll(input)\n	if err != nil {\n		failWithError(\"%v\", err)\n	}\n	module, err := asn1go.ParseString(string(text))\n", '	"os"\n', '	"io"\n	"os"\n')),
 ("log-fatal", m("""	fmt.Fprintf(os.Stderr, format, args...)
	fmt.Fprintln(os.Stderr)
	os.Exit(1)
""", "	log.Fatalf(format, args...)\n", '	"fmt"\n', '	"log"\n')),
 ("exit-3", m("	os.Exit(1)\n", "	os.Exit(3)\n")),
 ("error-returns", m("func openInput(inputName string) (input *os.File) {\n	var err error\n", "func openInput(inputName string) (input *os.File, err error) {\n", """			failWithError("Can't open %s for reading: %v", inputName, err.Error())
		}
	}
	return input
""", """			return nil, fmt.Errorf("Can't open %s for reading: %v", inputName, err)
		}
	}
	return input, nil
""", "	input := openInput(flags.inputName)\n", "	input, err := openInput(flags.inputName)\n	if err != nil {\n		failWithError(\"%v\", err)\n	}\n")),
 ("check-helper", m("""	if err := output.Close(); err != nil {
		failWithError("Failed to close output: %v", err.Error())
	}
""", "	check(output.Close(), \"close output\")\n", "func main() {", "func check(err error, what string) {\n	if err == nil {\n		return\n	}\n	failWithError(\"Failed to %s: %v\", what, err)\n}\n\nfunc main() {")),
 ("sync-close", m("	if err := output.Close(); err != nil {", "	output.Chdir\n	if err := output.Close(); err != nil {".replace("	output.Chdir\n", ""))),
 ("temp-rename", m(OUT, """	if len(flags.outputName) == 0 {
		if _, err := os.Stdout.Write(generated.Bytes()); err != nil {
			failWithError("Failed to write output: %v", err.Error())
		}
		return
	}
	output, err := os.CreateTemp(".", "asn1go")
	if err != nil {
		failWithError("Failed to write output: %v", err.Error())
	}
	if _, err := output.Write(generated.Bytes()); err != nil {
		failWithError("Failed to write output: %v", err.Error())
	}
	if err := output.Close(); err != nil {
		failWithError("Failed to close output: %v", err.Error())
	}
	if err := os.Rename(output.Name(), flags.outputName); err != nil {
		failWithError("Failed to rename output: %v", err.Error())
	}
""")),
 ("run-code", m("func main() {\n	flags := parseFlags(os.Args)\n", "func main() {\n	if err := run(parseFlags(os.Args)); err != nil {\n		failWithError(\"%v\", err)\n	}\n}\n\nfunc run(flags flagsType) error {\n",
   "	module, err := asn1go.ParseStream(input)\n	if err != nil {\n		failWithError(\"%v\", err.Error())\n	}\n", "	module, err := asn1go.ParseStream(input)\n	if err != nil {\n		return err\n	}\n",
   "	err = gen.Generate(*module, &generated)\n	if err != nil {\n		failWithError(\"%v\", err.Error())\n	}\n", "	if err := gen.Generate(*module, &generated); err != nil {\n		return fmt.Errorf(\"generating: %w\", err)\n	}\n",
   "	if err := output.Close(); err != nil {\n		failWithError(\"Failed to close output: %v\", err.Error())\n	}\n", "	return output.Close()\n")),
 # helper tools
 ("ws-helper", [(W, "	outputBytes := utils.ParseWiresharkHex(string(inputBytes))\n	if _, err := os.Stdout.Write(outputBytes); err != nil {\n		fmt.Fprintf(os.Stderr, \"Failed to write: %v\", err.Error())\n		os.Exit(1)\n	}\n", "	outputBytes := utils.ParseWiresharkHex(string(inputBytes))\n	_, err = os.Stdout.Write(outputBytes)\n	check(\"write\", err)\n"), (W, "		fmt.Fprintf(os.Stderr, \"Failed to read: %v\", err.Error())\n		os.Exit(1)\n	}\n", "		check(\"read\", err)\n	}\n"), (W, "func main() {", "func check(what string, err error) {\n	if err != nil {\n		fmt.Fprintf(os.Stderr, \"Failed to %s: %v\", what, err)\n		os.Exit(1)\n	}\n}\n\nfunc main() {")]),
 ("ws-ioread", [(W, "ioutil.ReadAll", "io.ReadAll"), (W, "io/ioutil", "io")]),
 ("ws-nosync", [(W, "	os.Stdout.Sync()\n	os.Stdout.Close()\n", "")]),
 ("ws-checked-close", [(W, "	os.Stdout.Close()\n", "	if err := os.Stdout.Close(); err != nil {\n		fmt.Fprintln(os.Stderr, err)\n		os.Exit(1)\n	}\n")]),
 ("hex-index", [(D, "		for _, byteRepr := range elems[1:] {\n", "		for i := 1; i < len(elems); i++ {\n			byteRepr := elems[i]\n")]),
 ("hex-index-lines", [(D, "	for _, line := range strings.Split(str, \"\\n\") {\n		elems := strings.Split(line, \" \")\n", "	lines := strings.Split(str, \"\\n\")\n	for n := 0; n < len(lines); n++ {\n		elems := strings.Split(lines[n], \" \")\n")]),
 ("hex-skip-first", [(D, "		for _, byteRepr := range elems[1:] {\n			if len(byteRepr) == 0 {\n", "		for i, byteRepr := range elems {\n			if i == 0 || byteRepr == \"\" {\n")]),
 ("hex-append", [(D, "	buf := bytes.NewBuffer([]byte{})\n", "	var buf []byte\n"), (D, "			buf.WriteByte(byte(x))\n", "			buf = append(buf, byte(x))\n"), (D, "	return buf.Bytes()", "	return buf"), (D, '	"bytes"\n', "")]),
 ("hex-helper-byte", [(D, """			x, err := strconv.ParseUint(byteRepr, 16, 8)
			if err != nil {
				panic(err)
			}
			buf.WriteByte(byte(x))
""", "			buf.WriteByte(parseByte(byteRepr))\n"), (D, "func ParseWiresharkHex(", """func parseByte(repr string) byte {
	x, err := strconv.ParseUint(repr, 16, 8)
	if err != nil {
		panic(err)
	}
	return byte(x)
}

func ParseWiresharkHex(""")]),
 ("hex-helper-line", [(D, """		elems := strings.Split(line, " ")
		for _, byteRepr := range elems[1:] {
			if len(byteRepr) == 0 {
				continue
			}
			x, err := strconv.ParseUint(byteRepr, 16, 8)
			if err != nil {
				panic(err)
			}
			buf.WriteByte(byte(x))
		}
""", "		buf.Write(parseLine(line))\n"), (D, "func ParseWiresharkHex(", """func parseLine(line string) (res []byte) {
	for _, byteRepr := range strings.Split(line, " ")[1:] {
		if byteRepr != "" {
			x, err := strconv.ParseUint(byteRepr, 16, 8)
			if err != nil {
				panic(err)
			}
			res = append(res, byte(x))
		}
	}
	return res
}

func ParseWiresharkHex(""")]),
 ("hex-helper-buffer", [(D, """		elems := strings.Split(line, " ")
		for _, byteRepr := range elems[1:] {
			if len(byteRepr) == 0 {
				continue
			}
			x, err := strconv.ParseUint(byteRepr, 16, 8)
			if err != nil {
				panic(err)
			}
			buf.WriteByte(byte(x))
		}
""", "		appendLine(buf, line)\n"), (D, "func ParseWiresharkHex(", """func appendLine(buf *bytes.Buffer, line string) {
	words := strings.Split(line, " ")
	words = words[1:]
	for _, byteRepr := range words {
		if len(byteRepr) > 0 {
			x, err := strconv.ParseUint(byteRepr, 16, 8)
			if err != nil {
				panic(err)
			}
			buf.WriteByte(byte(x))
		}
	}
}

func ParseWiresharkHex(""")]),
 ("hex-skip-empty-line", [(D, "		elems := strings.Split(line, \" \")\n", "		if line == \"\" {\n			continue\n		}\n		elems := strings.Split(line, \" \")\n")]),
 ("hex-16bit", [(D, "			x, err := strconv.ParseUint(byteRepr, 16, 8)\n			if err != nil {", "			x, err := strconv.ParseUint(byteRepr, 16, 16)\n			if err == nil && x > 0xff {\n				err = strconv.ErrRange\n			}\n			if err != nil {")]),
 ("hex-zero-buffer", [(D, "	buf := bytes.NewBuffer([]byte{})\n", "	var buf bytes.Buffer\n")]),
 ("hex-make", [(D, "	buf := bytes.NewBuffer([]byte{})\n", "	buf := make([]byte, 0, len(str)/3)\n"), (D, "			buf.WriteByte(byte(x))\n", "			buf = append(buf, byte(x))\n"), (D, "	return buf.Bytes()", "	return buf"), (D, '	"bytes"\n', "")]),
 ("hex-cut", [(D, "		elems := strings.Split(line, \" \")\n		for _, byteRepr := range elems[1:] {\n", "		parts := strings.SplitN(line, \" \", 2)\n		if len(parts) < 2 {\n			continue\n		}\n		for _, byteRepr := range strings.Split(parts[1], \" \") {\n")]),
 ("marshal-short", [(L, "	err = ioutil.WriteFile(path, data, mode)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	return os.WriteFile(path, data, mode)\n"), (L, '	"io/ioutil"\n', "")]),
 ("marshal-wrap", [(L, "	data, err := asn1.Marshal(val)\n	if err != nil {\n		return err\n", "	data, err := asn1.Marshal(val)\n	if err != nil {\n		return fmt.Errorf(\"marshal: %w\", err)\n"), (L, '	"io/ioutil"\n', '	"fmt"\n	"io/ioutil"\n')]),
 ("marshal-open", [(L, "	err = ioutil.WriteFile(path, data, mode)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)\n	if err != nil {\n		return err\n	}\n	if _, err := f.Write(data); err != nil {\n		f.Close()\n		return err\n	}\n	return f.Close()\n"), (L, '	"io/ioutil"\n', "")]),
 ("run-short", [(U, "		return fmt.Errorf(runCommandError, append([]string{command}, args...), err.Error(), string(out))\n	} else {\n		return nil\n	}\n", "		return fmt.Errorf(runCommandError, append([]string{command}, args...), err, string(out))\n	}\n	return nil\n")]),
 ("run-oneline", [(U, "	out, err := cmd.CombinedOutput()\n	if err != nil {", "	if out, err := cmd.CombinedOutput(); err != nil {")]),
 ("run-values", [(U, '	bufStdout := bytes.NewBufferString("")\n	bufStderr := bytes.NewBufferString("")\n	cmd.Stdout, cmd.Stderr = bufStdout, bufStderr\n	err = cmd.Run()\n	stdout = bufStdout.String()\n	stderr = bufStderr.String()\n	return\n', '	var bufStdout, bufStderr bytes.Buffer\n	cmd.Stdout = &bufStdout\n	cmd.Stderr = &bufStderr\n	err = cmd.Run()\n	return bufStdout.String(), bufStderr.String(), err\n')]),
 ("run-join", [(U, "	cmd := exec.Command(command, args...)\n	out, err", "	line := append([]string{command}, args...)\n	cmd := exec.Command(line[0], line[1:]...)\n	out, err"), (U, "append([]string{command}, args...), err.Error", "line, err.Error")]),
]
LOUD = [
 ("exit-zero", m("	os.Exit(1)\n", "	os.Exit(0)\n"), "C23"),
 ("exit-256", m("	os.Exit(1)\n", "	os.Exit(256)\n"), "C23"),
 ("no-exit", m("	os.Exit(1)\n", ""), "C23"),
 ("stdout-errors", m("	fmt.Fprintf(os.Stderr, format, args...)\n	fmt.Fprintln(os.Stderr)\n", "	fmt.Printf(format, args...)\n	fmt.Println()\n"), "C23"),
 ("silent", m("	fmt.Fprintf(os.Stderr, format, args...)\n", "	_ = args\n"), "C23"),
 ("open-early", m("	output := openOutput(flags.outputName)\n", "", "	module, err := asn1go.ParseStream", "	output := openOutput(flags.outputName)\n	module, err := asn1go.ParseStream"), "C23"),
 ("direct", m("	err = gen.Generate(*module, &generated)\n", "	output := openOutput(flags.outputName)\n	err = gen.Generate(*module, output)\n", "	output := openOutput(flags.outputName)\n	if _, err := output.Write(generated.Bytes()); err != nil {\n		failWithError(\"Failed to write output: %v\", err.Error())\n	}\n", "	_ = generated\n"), "C23"),
 ("no-truncate", m("""		if err := output.Truncate(0); err != nil {
			failWithError("Failed to truncate file: %v", err.Error())
		}
""", ""), "C23"),
 ("truncate-ignored", m("""		if err := output.Truncate(0); err != nil {
			failWithError("Failed to truncate file: %v", err.Error())
		}
""", "		output.Truncate(0)\n"), "C23"),
 ("append", m("os.O_CREATE|os.O_WRONLY", "os.O_CREATE|os.O_WRONLY|os.O_EXCL"), "C23"),
 ("no-create", m("os.O_CREATE|os.O_WRONLY", "os.O_WRONLY"), "C23"),
 ("write-ignored", m("	if _, err := output.Write(generated.Bytes()); err != nil {\n		failWithError(\"Failed to write output: %v\", err.Error())\n	}\n", "	output.Write(generated.Bytes())\n"), "C23"),
 ("close-ignored", m("	if err := output.Close(); err != nil {\n		failWithError(\"Failed to close output: %v\", err.Error())\n	}\n", "	output.Close()\n"), "C23"),
 ("defer-close", m("	if err := output.Close(); err != nil {\n		failWithError(\"Failed to close output: %v\", err.Error())\n	}\n", "	defer output.Close()\n"), "C23"),
 ("gen-ignored", m("	err = gen.Generate(*module, &generated)\n	if err != nil {\n		failWithError(\"%v\", err.Error())\n	}\n", "	gen.Generate(*module, &generated)\n"), "C23"),
 ("package-lower", m("		Package:     flags.packageName,\n", "		Package:     strings.ToLower(flags.packageName),\n", '	"os"\n', '	"os"\n	"strings"\n'), "C23"),
 ("repr-dropped", m("		IntegerRepr: asn1go.IntegerRepr(flags.defaultIntRepr),\n", ""), "C23"),
 ("repr-const", m("asn1go.IntegerRepr(flags.defaultIntRepr)", "asn1go.IntegerReprInt64"), "C23"),
 ("flag-swap", m("cmd.StringVar(&res.packageName,", "cmd.StringVar(&res.defaultIntRepr,", 'cmd.StringVar(&res.defaultIntRepr, "default', 'cmd.StringVar(&res.packageName, "default'), "C23"),
 ("args-swap", m("		res.outputName = cmd.Arg(1)\n", "		res.inputName, res.outputName = cmd.Arg(1), cmd.Arg(0)\n"), "C23"),
 ("one-arg", m("		res.inputName = cmd.Arg(0)\n", "		res.inputName = cmd.Arg(0)\n		if res.inputName == \"-\" {\n			res.inputName = \"\"\n		}\n"), "C23"),
 ("partial", m("	output := openOutput(flags.outputName)\n", "	if generated.Len() > 1<<20 {\n		generated.Truncate(1 << 20)\n	}\n	output := openOutput(flags.outputName)\n"), "C23"),
 ("read-ignored", m("	module, err := asn1go.ParseStream(input)\n", "	text, _ := io.ReadAll(input)\n	module, err := asn1go.ParseString(string(text))\n", '	"os"\n', '	"io"\n	"os"\n'), "C23"),
 ("fallback-stdin", m("			failWithError(\"Can't open %s for reading: %v\", inputName, err.Error())\n", "			input = os.Stdin\n"), "C23"),
 ("fallback-stdout", m("			failWithError(\"File %v can not be written: %v\", outputName, err.Error())\n", "			return os.Stdout\n"), "C23"),
 ("remove-first", m("	module, err := asn1go.ParseStream(input)\n", "	os.Remove(flags.outputName)\n	module, err := asn1go.ParseStream(input)\n"), "C23"),
 ("flush-missing", m("	if _, err := output.Write(generated.Bytes()); err != nil {", "	writer := bufio.NewWriter(output)\n	if _, err := writer.Write(generated.Bytes()); err != nil {", '	"bytes"\n', '	"bufio"\n	"bytes"\n'), "C23"),
 ("recover", m("func main() {\n", "func main() {\n	defer func() { recover() }()\n", "	os.Exit(1)\n", "	panic(fmt.Sprintf(format, args...))\n"), "C23"),
 ("extra-args", m("		failWithError(\"%v\", usage)\n", "		os.Exit(0)\n"), "C23"),
 ("ws-read-ignored", [(W, "	if err != nil {\n		fmt.Fprintf(os.Stderr, \"Failed to read: %v\", err.Error())\n		os.Exit(1)\n	}\n", "	if err != nil && len(inputBytes) == 0 {\n		fmt.Fprintf(os.Stderr, \"Failed to read: %v\", err.Error())\n		os.Exit(1)\n	}\n")], "C24"),
 ("ws-write-zero", [(W, "Failed to write: %v\", err.Error())\n		os.Exit(1)", "Failed to write: %v\", err.Error())\n		os.Exit(0)")], "C24"),
 ("ws-recover", [(W, "func main() {\n", "func main() {\n	defer func() { recover() }()\n")], "C24"),
 ("ws-newline", [(W, "os.Stdout.Write(outputBytes)", "fmt.Println(string(outputBytes))")], "C24"),
 ("ws-empty", [(W, "	if _, err := os.Stdout.Write", "	if len(outputBytes) == 0 {\n		os.Exit(0)\n	}\n	if _, err := os.Stdout.Write")], "C24 -"),
 ("hex-first", [(D, "elems[1:]", "elems")], "C24"),
 ("hex-second", [(D, "		for _, byteRepr := range elems[1:] {", "		if len(elems) < 2 {\n			continue\n		}\n		for _, byteRepr := range elems[2:] {")], "C24"),
 ("hex-16", [(D, "16, 8)", "16, 16)")], "C24"),
 ("hex-base0", [(D, "16, 8)", "0, 8)")], "C24"),
 ("hex-continue", [(D, "				panic(err)\n			}\n			buf", "				continue\n			}\n			buf")], "C24"),
 ("hex-break", [(D, "				panic(err)\n			}\n			buf", "				break\n			}\n			buf")], "C24"),
 ("hex-sixteen", [(D, "		for _, byteRepr := range elems[1:] {\n", "		for i, byteRepr := range elems[1:] {\n			if i > 17 {\n				break\n			}\n")], "C24"),
 ("hex-blank-break", [(D, "			if len(byteRepr) == 0 {\n				continue\n", "			if len(byteRepr) == 0 {\n				break\n")], "C24"),
 ("hex-short", [(D, "			if len(byteRepr) == 0 {\n", "			if len(byteRepr) < 2 {\n")], "C24"),
 ("hex-empty-line", [(D, "		elems := strings.Split(line, \" \")\n", "		if line == \"\" && buf.Len() > 0 {\n			break\n		}\n		elems := strings.Split(line, \" \")\n")], "C24"),
 ("hex-parseint", [(D, "strconv.ParseUint(byteRepr, 16, 8)", "strconv.ParseInt(byteRepr, 16, 16)")], "C24"),
 ("hex-trim", [(D, "strconv.ParseUint(byteRepr, 16, 8)", "strconv.ParseUint(strings.TrimSuffix(byteRepr, \"|\"), 16, 8)")], "C24"),
 ("hex-prepend", [(D, "	buf := bytes.NewBuffer([]byte{})\n", "	var buf []byte\n"), (D, "			buf.WriteByte(byte(x))\n", "			buf = append([]byte{byte(x)}, buf...)\n"), (D, "	return buf.Bytes()", "	return buf"), (D, '	"bytes"\n', "")], "C24"),
 ("hex-writerune", [(D, "buf.WriteByte(byte(x))", "buf.WriteRune(rune(x))")], "C24"),
 ("hex-mask", [(D, "buf.WriteByte(byte(x))", "buf.WriteByte(byte(x) & 0x7f)")], "C24"),
 ("marshal-mode", [(L, "path, data, mode)", "path, data, 0644)")], "C24"),
 ("marshal-mode-mask", [(L, "path, data, mode)", "path, data, mode&0644)")], "C24"),
 ("marshal-nil", [(L, "	err = ioutil.WriteFile(path, data, mode)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	ioutil.WriteFile(path, data, mode)\n	return nil\n")], "C24"),
 ("marshal-swallow", [(L, "	data, err := asn1.Marshal(val)\n	if err != nil {\n		return err\n", "	data, err := asn1.Marshal(val)\n	if err != nil {\n		return nil\n")], "C24"),
 ("marshal-exists", [(L, "	err = ioutil", "	if _, err := os.Stat(path); err == nil {\n		return nil\n	}\n	err = ioutil")], "C24"),
 ("marshal-append", [(L, "	err = ioutil.WriteFile(path, data, mode)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, mode)\n	if err != nil {\n		return err\n	}\n	if _, err := f.Write(data); err != nil {\n		f.Close()\n		return err\n	}\n	return f.Close()\n"), (L, '	"io/ioutil"\n', "")], "C24"),
 ("marshal-defer", [(L, "	err = ioutil.WriteFile(path, data, mode)\n	if err != nil {\n		return err\n	}\n	return nil\n", "	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n	_, err = f.Write(data)\n	return err\n"), (L, '	"io/ioutil"\n', "")], "C24"),
 ("run-stdout-only", [(U, "cmd.CombinedOutput()", "cmd.Output()")], "C24"),
 ("run-no-output", [(U, "string(out))", '"")'), (U, "	out, err :=", "	_, err :=")], "C24"),
 ("run-exit-error", [(U, "	if err != nil {\n		return fmt", "	if _, exited := err.(*exec.ExitError); err != nil && !exited {\n		return fmt")], "C24"),
 ("run-swap", [(U, "	cmd.Stdout, cmd.Stderr = bufStdout, bufStderr\n", "	cmd.Stdout, cmd.Stderr = bufStderr, bufStdout\n")], "C24"),
 ("run-same", [(U, "	cmd.Stdout, cmd.Stderr = bufStdout, bufStderr\n", "	cmd.Stdout, cmd.Stderr = bufStdout, bufStdout\n")], "C24"),
 ("run-err-dropped", [(U, "	err = cmd.Run()\n	stdout", "	if err = cmd.Run(); len(bufStderr.String()) == 0 {\n		err = nil\n	}\n	stdout")], "C24"),
 ("run-trim", [(U, "	stdout = bufStdout.String()", "	stdout = string(bytes.TrimSpace(bufStdout.Bytes()))")], "C24"),
 ("run-args", [(U, "	cmd := exec.Command(command, args...)\n	out", "	cmd := exec.Command(command, args[:len(args)-1]...)\n	out")], "C24"),
]
