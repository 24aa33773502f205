# Evaluates ExifTool Filter expressions with ExifTool's own Filter(), for sim/filter.js.
# Request (a line):  base64(filter) SP item...   item = kind . base64(bytes), kind one of
#   v value, a item of a list, h field of a structure, b binary data
# Answer (a line): JSON array; an item is null (deleted), a base64 string, or an object of those.
use strict; use warnings;
use MIME::Base64 qw(encode_base64 decode_base64);
my ($lib, $in, $out) = @ARGV;
unshift @INC, $lib;
require Image::ExifTool; require Image::ExifTool::XMP;
open(my $i, '<', $in) or die; open(my $o, '>', $out) or die;
binmode $i; binmode $o; { my $h = select $o; $| = 1; select $h; }
my $et = Image::ExifTool->new;
$SIG{__WARN__} = sub {};
sub ser {
  my $v = shift;
  return 'null' unless defined $v;
  return '{' . join(',', map { '"' . encode_base64($_, '') . '":' . ser($$v{$_}) } sort keys %$v) . '}' if ref $v eq 'HASH';
  return '[' . join(',', map { ser($_) } @$v) . ']' if ref $v eq 'ARRAY';
  return ser($$v) if ref $v eq 'SCALAR' or ref $v eq 'REF';
  my $b = $v; utf8::encode($b) if utf8::is_utf8($b);
  return '"' . encode_base64($b, '') . '"';
}
while (defined(my $line = <$i>)) {
  chomp $line;
  my ($f, @items) = split / /, $line;
  my $filter = decode_base64($f);
  my @r;
  for (@items) {
    my $k = substr($_, 0, 1); my $b = decode_base64(substr($_, 1));
    my $val = $k eq 'a' ? [$b] : $k eq 'h' ? [{ F => $b }] : $k eq 'b' ? \$b : $b;
    $et->Filter($filter, \$val);
    my $x = $k eq 'a' ? $$val[0] : $k eq 'h' ? $$val[0]{F} : $val;
    push @r, ser($x);
  }
  print $o '[', join(',', @r), "]\n";
}
