from seed import seed
from seeds1 import imp

SOL = '''
// session writes the verifying key of a random ceremony and gives its constants.
func session(name string) []string {
	c := rndCirc(2, 2, 2, 3, rnd)
	p, e := c.refP2(secrets{rnd(), rnd(), rnd()})
	p.contribute(rnd(), rnd())
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	must(silent(func() error { return keys.ExtractSplitKeys("a.ph2", name) }))
	k, err := readVK(name + ".vk.save")
	must(err)
	r := []string{k.A1.X.String(), k.A1.Y.String(), k.B2.X.A0.String(), k.B2.Y.A1.String(), k.D2.X.A1.String(), k.D2.Y.A0.String()}
	for i := range k.K {
		r = append(r, k.K[i].X.String(), k.K[i].Y.String())
	}
	return r
}

// holds says whether the contract has the constants.
func holds(path string, consts []string) bool {
	b, err := os.ReadFile(path)
	must(err)
	for _, c := range consts {
		if !bytes.Contains(b, []byte("uint256("+c+")")) {
			return false
		}
	}
	n := bytes.Count(b, []byte("contract "))
	return n == 1 && bytes.HasSuffix(bytes.TrimSpace(b), []byte("}"))
}
'''

seed('b55-sol-exists', 'C26', 'an export for a session that has an older contract',
 'an existing contract is kept although the verifying key is another one',
 [('keys/keys.go', '''	filename := session + ".sol"
	fmt.Printf("Exporting %s\\n", filename)
''', '''	filename := fmt.Sprintf("%s.sol", session)
	if st, err := os.Stat(filename); err == nil && st.Size() > 0 {
		fmt.Printf("%s has been exported already\\n", filename)
		return nil
	}
	fmt.Println("Exporting", filename)
''')],
 imp('keys', 'bytes', 'os') + SOL + '''
func main() {
	for i := 0; i < 2; i++ {
		k := session("s")
		must(silent(func() error { return keys.ExportSol("s") }))
		check(holds("s.sol", k), "the contract of export %d has not the constants of the key", i)
	}
}
''')

seed('b56-sol-name', 'C26', 'a session name with a dot',
 'the contract of session a.b is written to a.sol, over that of session a',
 [('keys/keys.go', '''	filename := session + ".sol"
''', '''	base := session
	for i := len(base) - 1; i > 0 && base[i] != os.PathSeparator; i-- {
		if base[i] == '.' {
			base = base[:i]
			break
		}
	}
	filename := base + ".sol"
''')],
 imp('keys', 'bytes', 'os') + SOL + '''
func main() {
	for _, name := range []string{"a", "a.b", "a.b.c"} {
		k := session(name)
		must(silent(func() error { return keys.ExportSol(name) }))
		_, err := os.Stat(name + ".sol")
		check(err == nil, "there is no contract of session %s", name)
		check(holds(name+".sol", k), "the contract has not the constants of the key")
	}
}
''')

seed('b57-sol-buffer', 'C21', 'a full disk during the export of the contract',
 'the contract is buffered and the error of writing the buffer is lost',
 [('keys/keys.go', '''	if err := verifyingKey.ExportSolidity(f); err != nil {
		return err
	}
''', '''	w := bufio.NewWriterSize(f, 1<<16)
	defer w.Flush()
	if err := verifyingKey.ExportSolidity(w); err != nil {
		return err
	}
'''), ('keys/keys.go', '	fmt.Printf("%s has been extracted successfully\\n", filename)\n	return nil', '	fmt.Println(filename, "has been exported successfully")\n	return nil')],
 imp('keys', 'bytes', 'os') + SOL + '''
func main() {
	k := session("s")
	must(silent(func() error { return keys.ExportSol("s") }))
	check(holds("s.sol", k), "the contract has not the constants of the key")
	must(os.Remove("s.sol"))
	must(os.Symlink("/dev/full", "s.sol"))
	check(silent(func() error { return keys.ExportSol("s") }) != nil, "the export succeeded on a full device")
}
''')

seed('b58-sol-keys', 'C26', 'a ceremony with a second extraction for the same session after an export',
 'the export prefers the verifying key of the other extraction command when there is one',
 [('keys/keys.go', '''	vkFile, err := os.Open(session + ".vk.save")
	if err != nil {
		return err
	}
''', '''	vkFile, err := os.Open("vk")
	if os.IsNotExist(err) {
		vkFile, err = os.Open(session + ".vk.save")
	}
	if err != nil {
		return err
	}
'''), ('keys/keys.go', '	fmt.Printf("Exporting %s\\n", filename)\n', '	fmt.Println("Exporting", filename)\n')],
 imp('keys', 'bytes', 'os') + SOL + '''
func main() {
	session("s")
	must(silent(func() error { return keys.ExtractKeys("a.ph2") }))
	for _, name := range []string{"s", "t"} {
		k := session(name)
		must(silent(func() error { return keys.ExportSol(name) }))
		check(holds(name+".sol", k), "the contract of session %s has not the constants of its key", name)
	}
}
''')
