import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P13-cached-case-after-walk"; prop="P13"
needs="two code points sharing a switch whose current case is not 0, looked up through the same settings cache"
breaks="the switch case is memoized after the staircase walk has counted it down to zero, so later cached lookups return case 0"
edits=[("font.go","			settingsCache.CacheMappingCase(switchType, targetSwitchCase)\n",""),
("font.go","""		targetSwitchCase -= 1

		if startOffset >= endOffset { panic(invalidFontData) } // discretionary assertion
	}
	group.offset = uint32(offsetToMappingData) + startOffset
	return group, true
}

// Notice:""","""		targetSwitchCase -= 1

		if startOffset >= endOffset { panic(invalidFontData) } // discretionary assertion
	}
	if switchType != 254 { settingsCache.CacheMappingCase(switchType, targetSwitchCase) }
	group.offset = uint32(offsetToMappingData) + startOffset
	return group, true
}

// Notice:""")]
demo=demo('''
	b, u := newFont(4)
	k := must2(b.AddSetting("style", "off", "on"))
	sw := must2(b.AddSwitch(k))
	must(b.MapWithSwitchSingles('a', sw, u[0], u[1]))
	must(b.MapWithSwitchSingles('b', sw, u[2], u[3]))
	f := must2(b.Build())
	c := ggfnt.NewSettingsCache(f)
	c.Set(k, 1)
	for _, r := range "aabb" {
		g, ok := f.Mapping().Utf8WithCache(r, c)
		h, _ := f.Mapping().Utf8(r, []uint8{1})
		if !ok || g.Select(0) != h.Select(0) { fail("%c: %d, uncached %d", r, g.Select(0), h.Select(0)) }
	}
''')
