package zz_rt

func vr__Parse(input []byte) (*Result, error) {
	p := &parser{
		input:  input,
		set:    map[bsrElem]bool{},
		gss:    map[gssKey]*gnode{},
		seen:   map[desc]bool{},
		popped: map[*gnode]map[int]bool{},
	}
	p.u0 = &gnode{ret: -1, edgeSet: map[*gnode]bool{}}
	p.seed()
	for len(p.work) > 0 {
		if p.aborted {
			return nil, ErrTooLarge
		}
		d := p.work[len(p.work)-1]
		p.work = p.work[:len(p.work)-1]
		p.process(d)
	}
	if p.aborted {
		return nil, ErrTooLarge
	}
	return &Result{input: input, set: p.set, n: len(input)}, nil
}
