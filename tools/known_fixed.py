import subprocess
M = {'4c241df':('S09','keyword-only arguments of __init__ that name fields were dropped'),
'5021d5a':('S09','an inherited __init__ did not get the arguments that name fields'),
'f7526a9':('S05','a byte-sized array read from a stream that cannot tell lost count after a stripped string, or never ended'),
'237a5c3':('B07',"an error in a field's pack_if did not name the field"),
'd561787':('B15','8-byte float fields could not be unpacked (format f used)'),
'9f34f5e':('S05','byte-sized arrays read through a selector (stream without tell) raised AttributeError'),
'eb4c5e9':('S12',"variable strings padded with str instead of bytes failed"),
'3317ae2':('S12','left padding/stripping and size limit of padded strings were ignored'),
'3dc9410':('S08','a negative length from the stream was taken as "read everything" or an empty array'),
'87901b2':('S04','size of a padded variable string counted the padding that is stripped on write'),
'e43c55c':('S06','selector mutated/ignored the mapping it was given'),
'242f7f5':('S06','error for leftover read-ahead bytes raised TypeError'),
'12607bb':('S08','a constant struct rejected the very bytes it wrote'),
'9762465':('S09','extra arguments of create_from_stream broke numeric fields'),
'dee23d2':('S04','sizeof through a base class used the base class fields'),
'f14e55c':('S10',"nested struct's pointers resolved in the outer struct"),
'b71d06e':('S05','truncated padding was accepted'),
'5b0f52b':('S08','fixed arrays wrote the wrong number of elements'),
'7f4c95d':('S04','maximum size of arrays and strings sized by another field was wrong'),
'ca570ed':('S09','struct instances shared mutable defaults'),
'd7582b3':('B08','buffer instances shared mutable defaults'),
'51c8517':('S11','repr of a struct whose fields are not all set failed'),
'ad1d1e7':('S07','lazy fields had no defaults'),
'c178973':('S07','lazy fields were written with an empty context'),
'86caef4':('S07','lazy truncated input was not reported when read'),
'8de3d0b':('S07','an unreadable lazy field read as a default the second time'),
'89b9bcc':('S07','bit fields inside lazy were not lazy: attribute error on access'),
'df6b59f':('B13','a byte index past the end of a bit view read other bits or never ended'),
'793484c':('B08','buffers shared one mutable set_before_pack value'),
'1cf3304':('S07','constant fields inside lazy were not accessible'),
'f680c73':('B09',"a buffer's size and repr missed inherited fields"),
'9dcbb9a':('B05','set_after_unpack did not set the field'),
'18be1ff':('B04','a nested buffer with a fractional size consumed fractional bytes'),
'c0d3f24':('B14','bit offsets in lists of byte ranges selected the wrong bits'),
'53c95a8':('B14','bit slices without a start or stop failed'),
'd21c2db':('B06','an int of unusual width decoded from too short an input'),
'3166314':('B07','a negative int in a bit range hung'),
'a33d7d6':('B02','big-endian ints of 3, 5, 6, 7 bytes were written little endian'),
'9349aec':('B04','total size counted fields that are not packed'),
'a27b8ff':('B04','unpacked size of a field with descending ranges was wrong'),
'46ac9c2':('B15','default padding and strip of string list elements were str: failed'),
'184913b':('B11','nested buffer field with an explicit size could not be unpacked'),
'11d4a5c':('B14','an empty range hid overlapping ranges'),
'b45a11f':('X01','a buffer of fractional size could not be read through the adapter'),
'662ba40':('B11','lists of fixed-size strings lost their last elements'),
'434fafc':('B03','a byte-array field leaked bits after its range'),
'a5ee61f':('B05','whole sizes/offsets computed from bits were floats and could not be stored in int fields'),
'cde884d':('B13','inserting/removing bits corrupted other bits; packed buffers had garbage in gaps'),
'f519ae9':('B13','a small int did not overwrite all of the bit range assigned to'),
'c453092':('B06','a list without n and with zero-size elements never ended'),
'5cd664f':('B06','a bare AssertionError instead of the library\'s error when input ended in a set_after_unpack=ref field'),
'3bd55ae':('B06','input lacking a few bits of a multi-range field was accepted'),
'c7d0a47':('B04','a field with an empty open range after closed ones: sizes and after_ref differed between packing and unpacking'),
'73f8c3c':('B12','errors in dense expressions: the message grew exponentially (hang)'),
'd045c43':('B10','a field that does not apply was read, and kept a value, if another field is unpacked after it'),
'b1d5c82':('B09','a class called Buffer like its base class (Struct likewise) was not set up: its fields were lost'),
'2e77521':('B05','unpack_after held for the field itself only: its condition was evaluated earlier, and references from other fields ignored it')}
log = subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse'],text=True).splitlines()
with open('/verif/known_findings.txt','w') as f:
    f.write("# fixed: property=<id> <commit> <what failed>   (suppresses nothing)\n# known: property=<id> mechanism=<key> <what fails>   (reported as KNOWN-FINDING)\n")
    for l in log:
        h,s=l.split(' ',1)
        if s.startswith('fix:'):
            p,t=M[h[:7]]
            f.write('fixed: property=%s %s %s\n'%(p,h,t))
