#!/bin/bash
# makes the keys and certificates the signing checks use (committed, so
# that checks needn't).  Certificates are valid from 2015 to 2115.
set -e
cd "$(dirname "$0")/../vlib/keys"
D="-days 36500"
F="faketime 2015-01-01"
ex() { for x in "$@"; do echo "$x"; done; }
own() { # name subject [extensions...]
    n=$1; s=$2; shift 2
    args=(); for x in "$@"; do args+=(-addext "$x"); done
    $F openssl req -x509 -new -key $n.key -subj "$s" $D -out $n.pem "${args[@]}"
}
for n in rsa rsa2 evil-rsa ca int leaf email codesign nosign; do
    [ -f $n.key ] || openssl genrsa -out $n.key 2048 2>/dev/null
done
[ -f dsa.key ] || openssl dsaparam -genkey -out dsa.key 2048 2>/dev/null
[ -f evil-dsa.key ] || openssl dsaparam -genkey -out evil-dsa.key 2048 2>/dev/null
for n in ec evil-ec; do
    [ -f $n.key ] || openssl ecparam -name prime256v1 -genkey -noout -out $n.key
done
[ -f ec384.key ] || openssl ecparam -name secp384r1 -genkey -noout -out ec384.key
own rsa /CN=rsa/O=x
own rsa2 /CN=rsa2
own dsa /CN=dsa
own ec /CN=ec
own ec384 /CN=ec384
# same subjects, other keys
own evil-rsa /CN=rsa/O=x
own evil-dsa /CN=dsa
own evil-ec /CN=ec
own email /CN=email "keyUsage=digitalSignature" "extendedKeyUsage=emailProtection"
own codesign /CN=codesign "keyUsage=digitalSignature" "extendedKeyUsage=codeSigning"
own nosign /CN=nosign "keyUsage=keyEncipherment" "extendedKeyUsage=codeSigning"
# out of their time
faketime 2015-01-01 openssl req -x509 -new -key rsa2.key -subj /CN=old -days 30 -out expired.pem
faketime 2090-01-01 openssl req -x509 -new -key rsa2.key -subj /CN=new -days 3000 -out future.pem
# a chain
own ca /CN=ca "keyUsage=critical,keyCertSign"
for p in "int ca CA:TRUE" "leaf int CA:FALSE"; do
    set -- $p
    $F openssl req -new -key $1.key -subj /CN=$1 -out $1.csr
    printf "basicConstraints=critical,$3\n" > ext
    $F openssl x509 -req -in $1.csr -CA $2.pem -CAkey $2.key -set_serial 7 $D -extfile ext -out $1.pem 2>/dev/null
    rm $1.csr ext
done
cat int.pem ca.pem > chain.pem
# certificates for other uses, all of the same keys
cp leaf.key spare.key
own_() { n=$1; shift; cp leaf.key $n.key; own $n "/CN=$n" "$@"; rm $n.key; }
own_ nonrep "keyUsage=nonRepudiation" "extendedKeyUsage=codeSigning"
own_ ekuonly "extendedKeyUsage=codeSigning"
own_ kuonly "keyUsage=digitalSignature"
own_ encemail "keyUsage=keyEncipherment" "extendedKeyUsage=emailProtection"
own_ enconly "keyUsage=keyEncipherment"
rm spare.key
# chains with something special about them
cp ca.key pathca.key
own pathca /CN=pathca "basicConstraints=critical,CA:TRUE,pathlen:0"
rm pathca.key
sub() { # name key issuer issuer-key days [extensions...]
    n=$1; k=$2; i=$3; ik=$4; d=$5; shift 5
    $F openssl req -new -key $k.key -subj /CN=$n -out $n.csr
    ex "$@" > ext
    $F openssl x509 -req -in $n.csr -CA $i.pem -CAkey $ik.key -set_serial 7 -days $d -extfile ext -out $n.pem 2>/dev/null
    rm $n.csr ext
}
CA="basicConstraints=critical,CA:TRUE"
sub int-eku int ca ca 36500 $CA extendedKeyUsage=serverAuth
sub int-noca int ca ca 36500 basicConstraints=critical,CA:FALSE
sub int-old int ca ca 30 $CA
sub int-use int ca ca 36500 $CA keyUsage=critical,digitalSignature
sub int-path int pathca ca 36500 $CA
for x in eku noca old use path; do
    sub leaf-$x leaf int-$x int 36500 basicConstraints=critical,CA:FALSE
done
sub leaf-code leaf int int 36500 keyUsage=digitalSignature extendedKeyUsage=codeSigning
sub leaf-enc leaf int int 36500 keyUsage=keyEncipherment extendedKeyUsage=codeSigning
sub leaf-low leaf pathca ca 36500 basicConstraints=critical,CA:FALSE
ls
# blocks of other kinds, of the contents "data" and "other"
mkdir -p blocks
cd blocks
openssl crl2pkcs7 -nocrl -certfile ../rsa.pem -outform DER -out degen.der
R="-signer ../rsa.pem -inkey ../rsa.key -outform DER"
printf other | openssl smime -sign -nodetach -binary $R -out attached.der
printf data | openssl smime -sign -binary $R -out attrs.der
printf data | openssl smime -sign -binary -nocerts $R -out nocerts.der
printf data | openssl smime -encrypt -binary -outform DER -out env.der ../rsa.pem
cd ..
for k in rsa dsa ec ec384 leaf; do
    c=""; [ $k = leaf ] && c="-certfile chain.pem"
    openssl pkcs12 -export -in $k.pem -inkey $k.key $c -name $k -passout pass:changeit -out $k.p12
done
