CONV='database/files/convert.go'; REC='database/files/record.go'; PB='data/record.pb.go'
HEAD='''package files

import (
	"context"
	"encoding/binary"
	"hash/crc32"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

// stored is a record the way it has always been stored.
func stored(kind byte, start, end int64, data []byte) []byte {
	b := append(make([]byte, 0, 64), 1, kind)
	var n [8]byte
	binary.BigEndian.PutUint64(n[:], uint64(start))
	b = append(b, n[:]...)
	binary.BigEndian.PutUint64(n[:], uint64(end))
	b = append(b, n[:]...)
	b = append(b, byte(len(data)>>8), byte(len(data)))
	tab := crc32.MakeTable(crc32.Castagnoli)
	binary.BigEndian.PutUint32(n[:4], crc32.Update(crc32.Checksum(b, tab), tab, data))
	return append(append(b, n[:4]...), data...)
}

// read stores the records in a data file in the directory, and returns what
// is read of the metric.
func read(t *testing.T, dir, metric string, recs ...[]byte) (out string) {
	tmp, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tmp)
	const size, cap = 100, 4
	buf := make([]byte, size*(cap+1))
	head := cap - len(recs) - 1
	// size 100, the head, start 1, end 2, smallest end 2
	copy(buf, stored(2, 0, 0, []byte{8, 100, 16, byte(head), 24, 1, 32, 2, 40, 2}))
	for i, rec := range recs {
		copy(buf[(head+2+i)*size:], rec)
	}
	os.MkdirAll(filepath.Join(tmp, dir), 0755)
	if err := ioutil.WriteFile(filepath.Join(tmp, dir, "1.data"), buf, 0644); err != nil {
		t.Fatal(err)
	}
	db := New(tmp, Options{Size: size, Cap: cap, Files: 2})
	err = db.Query(context.Background(), metric, 100, nil, func(ctx context.Context, start, end int64, data []byte) (bool, error) {
		out += string(data) + ";"
		return true, nil
	})
	if err != nil {
		t.Error(err)
	}
	return out
}
'''
SEEDS=[
dict(id='c34-space-name', property='C34', needs='data that an earlier version stored for a metric with a space in its name',
 breaks='spaces are escaped in both directions, so that what is already stored under such a name is not found any more',
 edits=[(CONV,'''				buf = append(buf, "%25"...)
''','''				buf = append(buf, "%25"...)
			case ' ':
				buf = append(buf, "%20"...)
'''),(CONV,'''				buf = append(buf, '%')
''','''				buf = append(buf, '%')
				last_dot = false
				all_dots = false
			case '0':
				buf = append(buf, ' ')
'''),(CONV,'''				buf = append(buf, "%2f"...)
			case '%':''','''				buf = append(buf, "%2f"...) // a separator
			case '%':''')],
 pkg='database/files',
 demo=HEAD+'''
func TestDemo(t *testing.T) {
	if got := read(t, "a/b c", "a.b c", stored(2, 1, 2, []byte("hello"))); got != "hello;" {
		t.Fatalf("%q", got)
	}
}
'''),
dict(id='c34-kind-order', property='C34', needs='a value of more than one record that an earlier version stored',
 breaks='the numbers that tell the middle and the end of a value apart are exchanged, so that long values that are already stored are not read',
 edits=[(REC,'''	// the middle of a record (only contains some interior of the full data)
	recordKind_continue

	// the end of a record (only contains a suffix of the full data)
	recordKind_end
''','''	// the end of a record (only contains a suffix of the full data)
	recordKind_end

	// the middle of a record (only contains some interior of the full data)
	recordKind_continue
''')],
 pkg='database/files',
 demo=HEAD+'''
func TestDemo(t *testing.T) {
	got := read(t, "a", "a", stored(3, 1, 2, []byte("hel")), stored(4, 1, 2, []byte("l")), stored(5, 1, 2, []byte("o")))
	if got != "hello;" {
		t.Fatalf("%q", got)
	}
}
'''),
dict(id='c34-checksum-range', property='C34', needs='data that an earlier version stored',
 breaks='the version is not a part of what the checksum is made of any more, so that nothing that is already stored is valid',
 edits=[(REC,'''	var crc uint32
	crc = crc32.Update(crc, castTable, buf[:recordHeaderSize-4])
	crc = crc32.Update(crc, castTable, r.data''','''	var crc uint32
	crc = crc32.Update(crc, castTable, buf[1:recordHeaderSize-4])
	crc = crc32.Update(crc, castTable, r.data'''),(REC,'''	var crc uint32
	crc = crc32.Update(crc, castTable, buf[:recordHeaderSize-4])
	crc = crc32.Update(crc, castTable, out.data''','''	var crc uint32
	crc = crc32.Update(crc, castTable, buf[1:recordHeaderSize-4])
	crc = crc32.Update(crc, castTable, out.data''')],
 pkg='database/files',
 demo=HEAD+'''
func TestDemo(t *testing.T) {
	if got := read(t, "a", "a", stored(2, 1, 2, []byte("hello"))); got != "hello;" {
		t.Fatalf("%q", got)
	}
}
'''),
dict(id='c34-strict-fields', property='C34', needs='a record with a field of a later version',
 breaks='a record with a field that is not known is refused instead of read without it',
 edits=[(PB,'''		default:
			iNdEx = preIndex
			skippy, err := skipRecord(dAtA[iNdEx:])
''','''		default:
			if wireType != 0 {
				return fmt.Errorf("proto: unknown field %d", fieldNum)
			}
			skippy, err := skipRecord(dAtA[preIndex:])
			iNdEx = preIndex
''')],
 pkg='data',
 demo='''package data

import "testing"

func TestDemo(t *testing.T) {
	in := Record{StartTime: 1, EndTime: 2, Kind: "tdigest", Merged: 3}
	buf, err := in.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	buf = append(buf, 15<<3|2, 3, 'a', 'b', 'c')
	var out Record
	if err := out.Unmarshal(buf); err != nil || out.EndTime != 2 || out.Kind != "tdigest" || out.Merged != 3 {
		t.Fatal(err, out)
	}
}
'''),
]
