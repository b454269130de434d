broadcast use crate::lib_base::group_base;
// Opcode names and their consensus byte values. The tables of the code are compared with these
// (obligations "map ... equals ..." written next to the generated tables).
//@table script.opCodeStrings op_keys op_vals
//@table script.opCodeValues opn_keys opn_vals opn_idx

#[verifier::opaque]
pub open spec fn op_keys() -> Seq<Seq<u8>> { seq![
    seq![79u8, 80u8, 95u8, 48u8], // OP_0
    seq![79u8, 80u8, 95u8, 49u8], // OP_1
    seq![79u8, 80u8, 95u8, 50u8], // OP_2
    seq![79u8, 80u8, 95u8, 51u8], // OP_3
    seq![79u8, 80u8, 95u8, 52u8], // OP_4
    seq![79u8, 80u8, 95u8, 53u8], // OP_5
    seq![79u8, 80u8, 95u8, 54u8], // OP_6
    seq![79u8, 80u8, 95u8, 55u8], // OP_7
    seq![79u8, 80u8, 95u8, 56u8], // OP_8
    seq![79u8, 80u8, 95u8, 57u8], // OP_9
    seq![79u8, 80u8, 95u8, 49u8, 48u8], // OP_10
    seq![79u8, 80u8, 95u8, 49u8, 49u8], // OP_11
    seq![79u8, 80u8, 95u8, 49u8, 50u8], // OP_12
    seq![79u8, 80u8, 95u8, 49u8, 51u8], // OP_13
    seq![79u8, 80u8, 95u8, 49u8, 52u8], // OP_14
    seq![79u8, 80u8, 95u8, 49u8, 53u8], // OP_15
    seq![79u8, 80u8, 95u8, 49u8, 54u8], // OP_16
    seq![79u8, 80u8, 95u8, 73u8, 70u8], // OP_IF
    seq![79u8, 80u8, 95u8, 79u8, 82u8], // OP_OR
    seq![79u8, 80u8, 95u8, 65u8, 66u8, 83u8], // OP_ABS
    seq![79u8, 80u8, 95u8, 65u8, 68u8, 68u8], // OP_ADD
    seq![79u8, 80u8, 95u8, 65u8, 78u8, 68u8], // OP_AND
    seq![79u8, 80u8, 95u8, 67u8, 65u8, 84u8], // OP_CAT
    seq![79u8, 80u8, 95u8, 68u8, 73u8, 86u8], // OP_DIV
    seq![79u8, 80u8, 95u8, 68u8, 85u8, 80u8], // OP_DUP
    seq![79u8, 80u8, 95u8, 77u8, 65u8, 88u8], // OP_MAX
    seq![79u8, 80u8, 95u8, 77u8, 73u8, 78u8], // OP_MIN
    seq![79u8, 80u8, 95u8, 77u8, 79u8, 68u8], // OP_MOD
    seq![79u8, 80u8, 95u8, 77u8, 85u8, 76u8], // OP_MUL
    seq![79u8, 80u8, 95u8, 78u8, 73u8, 80u8], // OP_NIP
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8], // OP_NOP
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 84u8], // OP_NOT
    seq![79u8, 80u8, 95u8, 79u8, 78u8, 69u8], // OP_ONE
    seq![79u8, 80u8, 95u8, 82u8, 79u8, 84u8], // OP_ROT
    seq![79u8, 80u8, 95u8, 83u8, 85u8, 66u8], // OP_SUB
    seq![79u8, 80u8, 95u8, 86u8, 69u8, 82u8], // OP_VER
    seq![79u8, 80u8, 95u8, 88u8, 79u8, 82u8], // OP_XOR
    seq![79u8, 80u8, 95u8, 49u8, 65u8, 68u8, 68u8], // OP_1ADD
    seq![79u8, 80u8, 95u8, 49u8, 83u8, 85u8, 66u8], // OP_1SUB
    seq![79u8, 80u8, 95u8, 50u8, 68u8, 73u8, 86u8], // OP_2DIV
    seq![79u8, 80u8, 95u8, 50u8, 68u8, 85u8, 80u8], // OP_2DUP
    seq![79u8, 80u8, 95u8, 50u8, 77u8, 85u8, 76u8], // OP_2MUL
    seq![79u8, 80u8, 95u8, 50u8, 82u8, 79u8, 84u8], // OP_2ROT
    seq![79u8, 80u8, 95u8, 51u8, 68u8, 85u8, 80u8], // OP_3DUP
    seq![79u8, 80u8, 95u8, 66u8, 65u8, 83u8, 69u8], // OP_BASE
    seq![79u8, 80u8, 95u8, 68u8, 82u8, 79u8, 80u8], // OP_DROP
    seq![79u8, 80u8, 95u8, 69u8, 76u8, 83u8, 69u8], // OP_ELSE
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 49u8], // OP_NOP1
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 50u8], // OP_NOP2
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 51u8], // OP_NOP3
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 52u8], // OP_NOP4
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 53u8], // OP_NOP5
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 54u8], // OP_NOP6
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 55u8], // OP_NOP7
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 56u8], // OP_NOP8
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 57u8], // OP_NOP9
    seq![79u8, 80u8, 95u8, 79u8, 86u8, 69u8, 82u8], // OP_OVER
    seq![79u8, 80u8, 95u8, 80u8, 73u8, 67u8, 75u8], // OP_PICK
    seq![79u8, 80u8, 95u8, 82u8, 79u8, 76u8, 76u8], // OP_ROLL
    seq![79u8, 80u8, 95u8, 83u8, 72u8, 65u8, 49u8], // OP_SHA1
    seq![79u8, 80u8, 95u8, 83u8, 73u8, 90u8, 69u8], // OP_SIZE
    seq![79u8, 80u8, 95u8, 83u8, 87u8, 65u8, 80u8], // OP_SWAP
    seq![79u8, 80u8, 95u8, 84u8, 82u8, 85u8, 69u8], // OP_TRUE
    seq![79u8, 80u8, 95u8, 84u8, 85u8, 67u8, 75u8], // OP_TUCK
    seq![79u8, 80u8, 95u8, 90u8, 69u8, 82u8, 79u8], // OP_ZERO
    seq![79u8, 80u8, 95u8, 50u8, 68u8, 82u8, 79u8, 80u8], // OP_2DROP
    seq![79u8, 80u8, 95u8, 50u8, 79u8, 86u8, 69u8, 82u8], // OP_2OVER
    seq![79u8, 80u8, 95u8, 50u8, 83u8, 87u8, 65u8, 80u8], // OP_2SWAP
    seq![79u8, 80u8, 95u8, 68u8, 69u8, 80u8, 84u8, 72u8], // OP_DEPTH
    seq![79u8, 80u8, 95u8, 69u8, 78u8, 68u8, 73u8, 70u8], // OP_ENDIF
    seq![79u8, 80u8, 95u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_EQUAL
    seq![79u8, 80u8, 95u8, 70u8, 65u8, 76u8, 83u8, 69u8], // OP_FALSE
    seq![79u8, 80u8, 95u8, 73u8, 70u8, 68u8, 85u8, 80u8], // OP_IFDUP
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 49u8, 48u8], // OP_NOP10
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 84u8, 73u8, 70u8], // OP_NOTIF
    seq![79u8, 80u8, 95u8, 83u8, 80u8, 76u8, 73u8, 84u8], // OP_SPLIT
    seq![79u8, 80u8, 95u8, 86u8, 69u8, 82u8, 73u8, 70u8], // OP_VERIF
    seq![79u8, 80u8, 95u8, 66u8, 79u8, 79u8, 76u8, 79u8, 82u8], // OP_BOOLOR
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8], // OP_DATA_1
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8], // OP_DATA_2
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8], // OP_DATA_3
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8], // OP_DATA_4
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8], // OP_DATA_5
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8], // OP_DATA_6
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8], // OP_DATA_7
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 56u8], // OP_DATA_8
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 57u8], // OP_DATA_9
    seq![79u8, 80u8, 95u8, 73u8, 78u8, 86u8, 69u8, 82u8, 84u8], // OP_INVERT
    seq![79u8, 80u8, 95u8, 76u8, 83u8, 72u8, 73u8, 70u8, 84u8], // OP_LSHIFT
    seq![79u8, 80u8, 95u8, 78u8, 69u8, 71u8, 65u8, 84u8, 69u8], // OP_NEGATE
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 66u8, 75u8, 69u8, 89u8], // OP_PUBKEY
    seq![79u8, 80u8, 95u8, 82u8, 69u8, 84u8, 85u8, 82u8, 78u8], // OP_RETURN
    seq![79u8, 80u8, 95u8, 82u8, 83u8, 72u8, 73u8, 70u8, 84u8], // OP_RSHIFT
    seq![79u8, 80u8, 95u8, 83u8, 72u8, 65u8, 50u8, 53u8, 54u8], // OP_SHA256
    seq![79u8, 80u8, 95u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_VERIFY
    seq![79u8, 80u8, 95u8, 87u8, 73u8, 84u8, 72u8, 73u8, 78u8], // OP_WITHIN
    seq![79u8, 80u8, 95u8, 49u8, 78u8, 69u8, 71u8, 65u8, 84u8, 69u8], // OP_1NEGATE
    seq![79u8, 80u8, 95u8, 66u8, 73u8, 78u8, 50u8, 78u8, 85u8, 77u8], // OP_BIN2NUM
    seq![79u8, 80u8, 95u8, 66u8, 79u8, 79u8, 76u8, 65u8, 78u8, 68u8], // OP_BOOLAND
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 48u8], // OP_DATA_10
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 49u8], // OP_DATA_11
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 50u8], // OP_DATA_12
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 51u8], // OP_DATA_13
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 52u8], // OP_DATA_14
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 53u8], // OP_DATA_15
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 54u8], // OP_DATA_16
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 55u8], // OP_DATA_17
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 56u8], // OP_DATA_18
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 57u8], // OP_DATA_19
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 48u8], // OP_DATA_20
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 49u8], // OP_DATA_21
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 50u8], // OP_DATA_22
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 51u8], // OP_DATA_23
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 52u8], // OP_DATA_24
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 53u8], // OP_DATA_25
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 54u8], // OP_DATA_26
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 55u8], // OP_DATA_27
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 56u8], // OP_DATA_28
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 57u8], // OP_DATA_29
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 48u8], // OP_DATA_30
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 49u8], // OP_DATA_31
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 50u8], // OP_DATA_32
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 51u8], // OP_DATA_33
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 52u8], // OP_DATA_34
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 53u8], // OP_DATA_35
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 54u8], // OP_DATA_36
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 55u8], // OP_DATA_37
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 56u8], // OP_DATA_38
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 57u8], // OP_DATA_39
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 48u8], // OP_DATA_40
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 49u8], // OP_DATA_41
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 50u8], // OP_DATA_42
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 51u8], // OP_DATA_43
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 52u8], // OP_DATA_44
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 53u8], // OP_DATA_45
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 54u8], // OP_DATA_46
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 55u8], // OP_DATA_47
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 56u8], // OP_DATA_48
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 57u8], // OP_DATA_49
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 48u8], // OP_DATA_50
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 49u8], // OP_DATA_51
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 50u8], // OP_DATA_52
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 51u8], // OP_DATA_53
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 52u8], // OP_DATA_54
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 53u8], // OP_DATA_55
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 54u8], // OP_DATA_56
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 55u8], // OP_DATA_57
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 56u8], // OP_DATA_58
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 57u8], // OP_DATA_59
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 48u8], // OP_DATA_60
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 49u8], // OP_DATA_61
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 50u8], // OP_DATA_62
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 51u8], // OP_DATA_63
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 52u8], // OP_DATA_64
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 53u8], // OP_DATA_65
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 54u8], // OP_DATA_66
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 55u8], // OP_DATA_67
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 56u8], // OP_DATA_68
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 57u8], // OP_DATA_69
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 48u8], // OP_DATA_70
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 49u8], // OP_DATA_71
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 50u8], // OP_DATA_72
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 51u8], // OP_DATA_73
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 52u8], // OP_DATA_74
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 53u8], // OP_DATA_75
    seq![79u8, 80u8, 95u8, 72u8, 65u8, 83u8, 72u8, 49u8, 54u8, 48u8], // OP_HASH160
    seq![79u8, 80u8, 95u8, 72u8, 65u8, 83u8, 72u8, 50u8, 53u8, 54u8], // OP_HASH256
    seq![79u8, 80u8, 95u8, 78u8, 85u8, 77u8, 50u8, 66u8, 73u8, 78u8], // OP_NUM2BIN
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 66u8, 75u8, 69u8, 89u8, 83u8], // OP_PUBKEYS
    seq![79u8, 80u8, 95u8, 67u8, 72u8, 69u8, 67u8, 75u8, 83u8, 73u8, 71u8], // OP_CHECKSIG
    seq![79u8, 80u8, 95u8, 76u8, 69u8, 83u8, 83u8, 84u8, 72u8, 65u8, 78u8], // OP_LESSTHAN
    seq![79u8, 80u8, 95u8, 78u8, 85u8, 77u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_NUMEQUAL
    seq![79u8, 80u8, 95u8, 82u8, 69u8, 83u8, 69u8, 82u8, 86u8, 69u8, 68u8], // OP_RESERVED
    seq![79u8, 80u8, 95u8, 86u8, 69u8, 82u8, 78u8, 79u8, 84u8, 73u8, 70u8], // OP_VERNOTIF
    seq![79u8, 80u8, 95u8, 48u8, 78u8, 79u8, 84u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_0NOTEQUAL
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 83u8, 72u8, 68u8, 65u8, 84u8, 65u8, 49u8], // OP_PUSHDATA1
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 83u8, 72u8, 68u8, 65u8, 84u8, 65u8, 50u8], // OP_PUSHDATA2
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 83u8, 72u8, 68u8, 65u8, 84u8, 65u8, 52u8], // OP_PUSHDATA4
    seq![79u8, 80u8, 95u8, 82u8, 69u8, 83u8, 69u8, 82u8, 86u8, 69u8, 68u8, 49u8], // OP_RESERVED1
    seq![79u8, 80u8, 95u8, 82u8, 69u8, 83u8, 69u8, 82u8, 86u8, 69u8, 68u8, 50u8], // OP_RESERVED2
    seq![79u8, 80u8, 95u8, 82u8, 73u8, 80u8, 69u8, 77u8, 68u8, 49u8, 54u8, 48u8], // OP_RIPEMD160
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 66u8, 75u8, 69u8, 89u8, 72u8, 65u8, 83u8, 72u8], // OP_PUBKEYHASH
    seq![79u8, 80u8, 95u8, 84u8, 79u8, 65u8, 76u8, 84u8, 83u8, 84u8, 65u8, 67u8, 75u8], // OP_TOALTSTACK
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 56u8, 54u8], // OP_UNKNOWN186
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 56u8, 55u8], // OP_UNKNOWN187
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 56u8, 56u8], // OP_UNKNOWN188
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 56u8, 57u8], // OP_UNKNOWN189
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 48u8], // OP_UNKNOWN190
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 49u8], // OP_UNKNOWN191
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 50u8], // OP_UNKNOWN192
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 51u8], // OP_UNKNOWN193
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 52u8], // OP_UNKNOWN194
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 53u8], // OP_UNKNOWN195
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 54u8], // OP_UNKNOWN196
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 55u8], // OP_UNKNOWN197
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 56u8], // OP_UNKNOWN198
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 57u8], // OP_UNKNOWN199
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 48u8], // OP_UNKNOWN200
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 49u8], // OP_UNKNOWN201
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 50u8], // OP_UNKNOWN202
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 51u8], // OP_UNKNOWN203
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 52u8], // OP_UNKNOWN204
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 53u8], // OP_UNKNOWN205
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 54u8], // OP_UNKNOWN206
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 55u8], // OP_UNKNOWN207
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 56u8], // OP_UNKNOWN208
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 57u8], // OP_UNKNOWN209
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 48u8], // OP_UNKNOWN210
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 49u8], // OP_UNKNOWN211
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 50u8], // OP_UNKNOWN212
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 51u8], // OP_UNKNOWN213
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 52u8], // OP_UNKNOWN214
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 53u8], // OP_UNKNOWN215
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 54u8], // OP_UNKNOWN216
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 55u8], // OP_UNKNOWN217
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 56u8], // OP_UNKNOWN218
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 57u8], // OP_UNKNOWN219
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 48u8], // OP_UNKNOWN220
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 49u8], // OP_UNKNOWN221
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 50u8], // OP_UNKNOWN222
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 51u8], // OP_UNKNOWN223
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 52u8], // OP_UNKNOWN224
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 53u8], // OP_UNKNOWN225
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 54u8], // OP_UNKNOWN226
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 55u8], // OP_UNKNOWN227
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 56u8], // OP_UNKNOWN228
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 57u8], // OP_UNKNOWN229
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 48u8], // OP_UNKNOWN230
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 49u8], // OP_UNKNOWN231
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 50u8], // OP_UNKNOWN232
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 51u8], // OP_UNKNOWN233
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 52u8], // OP_UNKNOWN234
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 53u8], // OP_UNKNOWN235
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 54u8], // OP_UNKNOWN236
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 55u8], // OP_UNKNOWN237
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 56u8], // OP_UNKNOWN238
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 57u8], // OP_UNKNOWN239
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 48u8], // OP_UNKNOWN240
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 49u8], // OP_UNKNOWN241
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 50u8], // OP_UNKNOWN242
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 51u8], // OP_UNKNOWN243
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 52u8], // OP_UNKNOWN244
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 53u8], // OP_UNKNOWN245
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 54u8], // OP_UNKNOWN246
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 55u8], // OP_UNKNOWN247
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 56u8], // OP_UNKNOWN248
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 57u8], // OP_UNKNOWN249
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 53u8, 50u8], // OP_UNKNOWN252
    seq![79u8, 80u8, 95u8, 69u8, 81u8, 85u8, 65u8, 76u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_EQUALVERIFY
    seq![79u8, 80u8, 95u8, 71u8, 82u8, 69u8, 65u8, 84u8, 69u8, 82u8, 84u8, 72u8, 65u8, 78u8], // OP_GREATERTHAN
    seq![79u8, 80u8, 95u8, 78u8, 85u8, 77u8, 78u8, 79u8, 84u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_NUMNOTEQUAL
    seq![79u8, 80u8, 95u8, 70u8, 82u8, 79u8, 77u8, 65u8, 76u8, 84u8, 83u8, 84u8, 65u8, 67u8, 75u8], // OP_FROMALTSTACK
    seq![79u8, 80u8, 95u8, 83u8, 77u8, 65u8, 76u8, 76u8, 73u8, 78u8, 84u8, 69u8, 71u8, 69u8, 82u8], // OP_SMALLINTEGER
    seq![79u8, 80u8, 95u8, 67u8, 72u8, 69u8, 67u8, 75u8, 77u8, 85u8, 76u8, 84u8, 73u8, 83u8, 73u8, 71u8], // OP_CHECKMULTISIG
    seq![79u8, 80u8, 95u8, 67u8, 79u8, 68u8, 69u8, 83u8, 69u8, 80u8, 65u8, 82u8, 65u8, 84u8, 79u8, 82u8], // OP_CODESEPARATOR
    seq![79u8, 80u8, 95u8, 73u8, 78u8, 86u8, 65u8, 76u8, 73u8, 68u8, 79u8, 80u8, 67u8, 79u8, 68u8, 69u8], // OP_INVALIDOPCODE
    seq![79u8, 80u8, 95u8, 67u8, 72u8, 69u8, 67u8, 75u8, 83u8, 73u8, 71u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_CHECKSIGVERIFY
    seq![79u8, 80u8, 95u8, 78u8, 85u8, 77u8, 69u8, 81u8, 85u8, 65u8, 76u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_NUMEQUALVERIFY
    seq![79u8, 80u8, 95u8, 76u8, 69u8, 83u8, 83u8, 84u8, 72u8, 65u8, 78u8, 79u8, 82u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_LESSTHANOREQUAL
    seq![79u8, 80u8, 95u8, 71u8, 82u8, 69u8, 65u8, 84u8, 69u8, 82u8, 84u8, 72u8, 65u8, 78u8, 79u8, 82u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_GREATERTHANOREQUAL
    seq![79u8, 80u8, 95u8, 67u8, 72u8, 69u8, 67u8, 75u8, 77u8, 85u8, 76u8, 84u8, 73u8, 83u8, 73u8, 71u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_CHECKMULTISIGVERIFY
] }
#[verifier::opaque]
pub open spec fn op_vals() -> Seq<u8> { seq![
    0u8, 81u8, 82u8, 83u8, 84u8, 85u8, 86u8, 87u8, 88u8, 89u8, 90u8, 91u8, 92u8, 93u8, 94u8, 95u8,
    96u8, 99u8, 133u8, 144u8, 147u8, 132u8, 126u8, 150u8, 118u8, 164u8, 163u8, 151u8, 149u8, 119u8, 97u8, 145u8,
    81u8, 123u8, 148u8, 98u8, 134u8, 139u8, 140u8, 142u8, 110u8, 141u8, 113u8, 111u8, 80u8, 117u8, 103u8, 176u8,
    177u8, 178u8, 179u8, 180u8, 181u8, 182u8, 183u8, 184u8, 120u8, 121u8, 122u8, 167u8, 130u8, 124u8, 81u8, 125u8,
    0u8, 109u8, 112u8, 114u8, 116u8, 104u8, 135u8, 0u8, 115u8, 185u8, 100u8, 127u8, 101u8, 155u8, 1u8, 2u8,
    3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 131u8, 152u8, 143u8, 254u8, 106u8, 153u8, 168u8, 105u8, 165u8,
    79u8, 129u8, 154u8, 10u8, 11u8, 12u8, 13u8, 14u8, 15u8, 16u8, 17u8, 18u8, 19u8, 20u8, 21u8, 22u8,
    23u8, 24u8, 25u8, 26u8, 27u8, 28u8, 29u8, 30u8, 31u8, 32u8, 33u8, 34u8, 35u8, 36u8, 37u8, 38u8,
    39u8, 40u8, 41u8, 42u8, 43u8, 44u8, 45u8, 46u8, 47u8, 48u8, 49u8, 50u8, 51u8, 52u8, 53u8, 54u8,
    55u8, 56u8, 57u8, 58u8, 59u8, 60u8, 61u8, 62u8, 63u8, 64u8, 65u8, 66u8, 67u8, 68u8, 69u8, 70u8,
    71u8, 72u8, 73u8, 74u8, 75u8, 169u8, 170u8, 128u8, 251u8, 172u8, 159u8, 156u8, 80u8, 102u8, 146u8, 76u8,
    77u8, 78u8, 137u8, 138u8, 166u8, 253u8, 107u8, 186u8, 187u8, 188u8, 189u8, 190u8, 191u8, 192u8, 193u8, 194u8,
    195u8, 196u8, 197u8, 198u8, 199u8, 200u8, 201u8, 202u8, 203u8, 204u8, 205u8, 206u8, 207u8, 208u8, 209u8, 210u8,
    211u8, 212u8, 213u8, 214u8, 215u8, 216u8, 217u8, 218u8, 219u8, 220u8, 221u8, 222u8, 223u8, 224u8, 225u8, 226u8,
    227u8, 228u8, 229u8, 230u8, 231u8, 232u8, 233u8, 234u8, 235u8, 236u8, 237u8, 238u8, 239u8, 240u8, 241u8, 242u8,
    243u8, 244u8, 245u8, 246u8, 247u8, 248u8, 249u8, 252u8, 136u8, 160u8, 158u8, 108u8, 250u8, 174u8, 171u8, 255u8,
    173u8, 157u8, 161u8, 162u8, 175u8,
] }
#[verifier::opaque]
pub open spec fn opn_keys() -> Seq<u8> { seq![
    0u8, 1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8, 12u8, 13u8, 14u8, 15u8,
    16u8, 17u8, 18u8, 19u8, 20u8, 21u8, 22u8, 23u8, 24u8, 25u8, 26u8, 27u8, 28u8, 29u8, 30u8, 31u8,
    32u8, 33u8, 34u8, 35u8, 36u8, 37u8, 38u8, 39u8, 40u8, 41u8, 42u8, 43u8, 44u8, 45u8, 46u8, 47u8,
    48u8, 49u8, 50u8, 51u8, 52u8, 53u8, 54u8, 55u8, 56u8, 57u8, 58u8, 59u8, 60u8, 61u8, 62u8, 63u8,
    64u8, 65u8, 66u8, 67u8, 68u8, 69u8, 70u8, 71u8, 72u8, 73u8, 74u8, 75u8, 76u8, 77u8, 78u8, 79u8,
    80u8, 81u8, 82u8, 83u8, 84u8, 85u8, 86u8, 87u8, 88u8, 89u8, 90u8, 91u8, 92u8, 93u8, 94u8, 95u8,
    96u8, 97u8, 98u8, 99u8, 100u8, 101u8, 102u8, 103u8, 104u8, 105u8, 106u8, 107u8, 108u8, 109u8, 110u8, 111u8,
    112u8, 113u8, 114u8, 115u8, 116u8, 117u8, 118u8, 119u8, 120u8, 121u8, 122u8, 123u8, 124u8, 125u8, 126u8, 127u8,
    128u8, 129u8, 130u8, 131u8, 132u8, 133u8, 134u8, 135u8, 136u8, 137u8, 138u8, 139u8, 140u8, 141u8, 142u8, 143u8,
    144u8, 145u8, 146u8, 147u8, 148u8, 149u8, 150u8, 151u8, 152u8, 153u8, 154u8, 155u8, 156u8, 157u8, 158u8, 159u8,
    160u8, 161u8, 162u8, 163u8, 164u8, 165u8, 166u8, 167u8, 168u8, 169u8, 170u8, 171u8, 172u8, 173u8, 174u8, 175u8,
    176u8, 177u8, 178u8, 179u8, 180u8, 181u8, 182u8, 183u8, 184u8, 185u8, 186u8, 187u8, 188u8, 189u8, 190u8, 191u8,
    192u8, 193u8, 194u8, 195u8, 196u8, 197u8, 198u8, 199u8, 200u8, 201u8, 202u8, 203u8, 204u8, 205u8, 206u8, 207u8,
    208u8, 209u8, 210u8, 211u8, 212u8, 213u8, 214u8, 215u8, 216u8, 217u8, 218u8, 219u8, 220u8, 221u8, 222u8, 223u8,
    224u8, 225u8, 226u8, 227u8, 228u8, 229u8, 230u8, 231u8, 232u8, 233u8, 234u8, 235u8, 236u8, 237u8, 238u8, 239u8,
    240u8, 241u8, 242u8, 243u8, 244u8, 245u8, 246u8, 247u8, 248u8, 249u8, 250u8, 251u8, 252u8, 253u8, 254u8, 255u8,
] }
#[verifier::opaque]
pub open spec fn opn_vals() -> Seq<Seq<u8>> { seq![
    seq![79u8, 80u8, 95u8, 70u8, 65u8, 76u8, 83u8, 69u8], // OP_FALSE
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8], // OP_DATA_1
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8], // OP_DATA_2
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8], // OP_DATA_3
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8], // OP_DATA_4
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8], // OP_DATA_5
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8], // OP_DATA_6
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8], // OP_DATA_7
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 56u8], // OP_DATA_8
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 57u8], // OP_DATA_9
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 48u8], // OP_DATA_10
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 49u8], // OP_DATA_11
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 50u8], // OP_DATA_12
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 51u8], // OP_DATA_13
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 52u8], // OP_DATA_14
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 53u8], // OP_DATA_15
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 54u8], // OP_DATA_16
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 55u8], // OP_DATA_17
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 56u8], // OP_DATA_18
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 49u8, 57u8], // OP_DATA_19
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 48u8], // OP_DATA_20
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 49u8], // OP_DATA_21
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 50u8], // OP_DATA_22
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 51u8], // OP_DATA_23
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 52u8], // OP_DATA_24
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 53u8], // OP_DATA_25
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 54u8], // OP_DATA_26
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 55u8], // OP_DATA_27
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 56u8], // OP_DATA_28
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 50u8, 57u8], // OP_DATA_29
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 48u8], // OP_DATA_30
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 49u8], // OP_DATA_31
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 50u8], // OP_DATA_32
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 51u8], // OP_DATA_33
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 52u8], // OP_DATA_34
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 53u8], // OP_DATA_35
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 54u8], // OP_DATA_36
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 55u8], // OP_DATA_37
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 56u8], // OP_DATA_38
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 51u8, 57u8], // OP_DATA_39
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 48u8], // OP_DATA_40
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 49u8], // OP_DATA_41
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 50u8], // OP_DATA_42
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 51u8], // OP_DATA_43
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 52u8], // OP_DATA_44
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 53u8], // OP_DATA_45
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 54u8], // OP_DATA_46
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 55u8], // OP_DATA_47
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 56u8], // OP_DATA_48
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 52u8, 57u8], // OP_DATA_49
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 48u8], // OP_DATA_50
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 49u8], // OP_DATA_51
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 50u8], // OP_DATA_52
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 51u8], // OP_DATA_53
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 52u8], // OP_DATA_54
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 53u8], // OP_DATA_55
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 54u8], // OP_DATA_56
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 55u8], // OP_DATA_57
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 56u8], // OP_DATA_58
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 53u8, 57u8], // OP_DATA_59
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 48u8], // OP_DATA_60
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 49u8], // OP_DATA_61
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 50u8], // OP_DATA_62
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 51u8], // OP_DATA_63
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 52u8], // OP_DATA_64
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 53u8], // OP_DATA_65
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 54u8], // OP_DATA_66
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 55u8], // OP_DATA_67
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 56u8], // OP_DATA_68
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 54u8, 57u8], // OP_DATA_69
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 48u8], // OP_DATA_70
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 49u8], // OP_DATA_71
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 50u8], // OP_DATA_72
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 51u8], // OP_DATA_73
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 52u8], // OP_DATA_74
    seq![79u8, 80u8, 95u8, 68u8, 65u8, 84u8, 65u8, 95u8, 55u8, 53u8], // OP_DATA_75
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 83u8, 72u8, 68u8, 65u8, 84u8, 65u8, 49u8], // OP_PUSHDATA1
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 83u8, 72u8, 68u8, 65u8, 84u8, 65u8, 50u8], // OP_PUSHDATA2
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 83u8, 72u8, 68u8, 65u8, 84u8, 65u8, 52u8], // OP_PUSHDATA4
    seq![79u8, 80u8, 95u8, 49u8, 78u8, 69u8, 71u8, 65u8, 84u8, 69u8], // OP_1NEGATE
    seq![79u8, 80u8, 95u8, 66u8, 65u8, 83u8, 69u8], // OP_BASE
    seq![79u8, 80u8, 95u8, 84u8, 82u8, 85u8, 69u8], // OP_TRUE
    seq![79u8, 80u8, 95u8, 50u8], // OP_2
    seq![79u8, 80u8, 95u8, 51u8], // OP_3
    seq![79u8, 80u8, 95u8, 52u8], // OP_4
    seq![79u8, 80u8, 95u8, 53u8], // OP_5
    seq![79u8, 80u8, 95u8, 54u8], // OP_6
    seq![79u8, 80u8, 95u8, 55u8], // OP_7
    seq![79u8, 80u8, 95u8, 56u8], // OP_8
    seq![79u8, 80u8, 95u8, 57u8], // OP_9
    seq![79u8, 80u8, 95u8, 49u8, 48u8], // OP_10
    seq![79u8, 80u8, 95u8, 49u8, 49u8], // OP_11
    seq![79u8, 80u8, 95u8, 49u8, 50u8], // OP_12
    seq![79u8, 80u8, 95u8, 49u8, 51u8], // OP_13
    seq![79u8, 80u8, 95u8, 49u8, 52u8], // OP_14
    seq![79u8, 80u8, 95u8, 49u8, 53u8], // OP_15
    seq![79u8, 80u8, 95u8, 49u8, 54u8], // OP_16
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8], // OP_NOP
    seq![79u8, 80u8, 95u8, 86u8, 69u8, 82u8], // OP_VER
    seq![79u8, 80u8, 95u8, 73u8, 70u8], // OP_IF
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 84u8, 73u8, 70u8], // OP_NOTIF
    seq![79u8, 80u8, 95u8, 86u8, 69u8, 82u8, 73u8, 70u8], // OP_VERIF
    seq![79u8, 80u8, 95u8, 86u8, 69u8, 82u8, 78u8, 79u8, 84u8, 73u8, 70u8], // OP_VERNOTIF
    seq![79u8, 80u8, 95u8, 69u8, 76u8, 83u8, 69u8], // OP_ELSE
    seq![79u8, 80u8, 95u8, 69u8, 78u8, 68u8, 73u8, 70u8], // OP_ENDIF
    seq![79u8, 80u8, 95u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_VERIFY
    seq![79u8, 80u8, 95u8, 82u8, 69u8, 84u8, 85u8, 82u8, 78u8], // OP_RETURN
    seq![79u8, 80u8, 95u8, 84u8, 79u8, 65u8, 76u8, 84u8, 83u8, 84u8, 65u8, 67u8, 75u8], // OP_TOALTSTACK
    seq![79u8, 80u8, 95u8, 70u8, 82u8, 79u8, 77u8, 65u8, 76u8, 84u8, 83u8, 84u8, 65u8, 67u8, 75u8], // OP_FROMALTSTACK
    seq![79u8, 80u8, 95u8, 50u8, 68u8, 82u8, 79u8, 80u8], // OP_2DROP
    seq![79u8, 80u8, 95u8, 50u8, 68u8, 85u8, 80u8], // OP_2DUP
    seq![79u8, 80u8, 95u8, 51u8, 68u8, 85u8, 80u8], // OP_3DUP
    seq![79u8, 80u8, 95u8, 50u8, 79u8, 86u8, 69u8, 82u8], // OP_2OVER
    seq![79u8, 80u8, 95u8, 50u8, 82u8, 79u8, 84u8], // OP_2ROT
    seq![79u8, 80u8, 95u8, 50u8, 83u8, 87u8, 65u8, 80u8], // OP_2SWAP
    seq![79u8, 80u8, 95u8, 73u8, 70u8, 68u8, 85u8, 80u8], // OP_IFDUP
    seq![79u8, 80u8, 95u8, 68u8, 69u8, 80u8, 84u8, 72u8], // OP_DEPTH
    seq![79u8, 80u8, 95u8, 68u8, 82u8, 79u8, 80u8], // OP_DROP
    seq![79u8, 80u8, 95u8, 68u8, 85u8, 80u8], // OP_DUP
    seq![79u8, 80u8, 95u8, 78u8, 73u8, 80u8], // OP_NIP
    seq![79u8, 80u8, 95u8, 79u8, 86u8, 69u8, 82u8], // OP_OVER
    seq![79u8, 80u8, 95u8, 80u8, 73u8, 67u8, 75u8], // OP_PICK
    seq![79u8, 80u8, 95u8, 82u8, 79u8, 76u8, 76u8], // OP_ROLL
    seq![79u8, 80u8, 95u8, 82u8, 79u8, 84u8], // OP_ROT
    seq![79u8, 80u8, 95u8, 83u8, 87u8, 65u8, 80u8], // OP_SWAP
    seq![79u8, 80u8, 95u8, 84u8, 85u8, 67u8, 75u8], // OP_TUCK
    seq![79u8, 80u8, 95u8, 67u8, 65u8, 84u8], // OP_CAT
    seq![79u8, 80u8, 95u8, 83u8, 80u8, 76u8, 73u8, 84u8], // OP_SPLIT
    seq![79u8, 80u8, 95u8, 78u8, 85u8, 77u8, 50u8, 66u8, 73u8, 78u8], // OP_NUM2BIN
    seq![79u8, 80u8, 95u8, 66u8, 73u8, 78u8, 50u8, 78u8, 85u8, 77u8], // OP_BIN2NUM
    seq![79u8, 80u8, 95u8, 83u8, 73u8, 90u8, 69u8], // OP_SIZE
    seq![79u8, 80u8, 95u8, 73u8, 78u8, 86u8, 69u8, 82u8, 84u8], // OP_INVERT
    seq![79u8, 80u8, 95u8, 65u8, 78u8, 68u8], // OP_AND
    seq![79u8, 80u8, 95u8, 79u8, 82u8], // OP_OR
    seq![79u8, 80u8, 95u8, 88u8, 79u8, 82u8], // OP_XOR
    seq![79u8, 80u8, 95u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_EQUAL
    seq![79u8, 80u8, 95u8, 69u8, 81u8, 85u8, 65u8, 76u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_EQUALVERIFY
    seq![79u8, 80u8, 95u8, 82u8, 69u8, 83u8, 69u8, 82u8, 86u8, 69u8, 68u8, 49u8], // OP_RESERVED1
    seq![79u8, 80u8, 95u8, 82u8, 69u8, 83u8, 69u8, 82u8, 86u8, 69u8, 68u8, 50u8], // OP_RESERVED2
    seq![79u8, 80u8, 95u8, 49u8, 65u8, 68u8, 68u8], // OP_1ADD
    seq![79u8, 80u8, 95u8, 49u8, 83u8, 85u8, 66u8], // OP_1SUB
    seq![79u8, 80u8, 95u8, 50u8, 77u8, 85u8, 76u8], // OP_2MUL
    seq![79u8, 80u8, 95u8, 50u8, 68u8, 73u8, 86u8], // OP_2DIV
    seq![79u8, 80u8, 95u8, 78u8, 69u8, 71u8, 65u8, 84u8, 69u8], // OP_NEGATE
    seq![79u8, 80u8, 95u8, 65u8, 66u8, 83u8], // OP_ABS
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 84u8], // OP_NOT
    seq![79u8, 80u8, 95u8, 48u8, 78u8, 79u8, 84u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_0NOTEQUAL
    seq![79u8, 80u8, 95u8, 65u8, 68u8, 68u8], // OP_ADD
    seq![79u8, 80u8, 95u8, 83u8, 85u8, 66u8], // OP_SUB
    seq![79u8, 80u8, 95u8, 77u8, 85u8, 76u8], // OP_MUL
    seq![79u8, 80u8, 95u8, 68u8, 73u8, 86u8], // OP_DIV
    seq![79u8, 80u8, 95u8, 77u8, 79u8, 68u8], // OP_MOD
    seq![79u8, 80u8, 95u8, 76u8, 83u8, 72u8, 73u8, 70u8, 84u8], // OP_LSHIFT
    seq![79u8, 80u8, 95u8, 82u8, 83u8, 72u8, 73u8, 70u8, 84u8], // OP_RSHIFT
    seq![79u8, 80u8, 95u8, 66u8, 79u8, 79u8, 76u8, 65u8, 78u8, 68u8], // OP_BOOLAND
    seq![79u8, 80u8, 95u8, 66u8, 79u8, 79u8, 76u8, 79u8, 82u8], // OP_BOOLOR
    seq![79u8, 80u8, 95u8, 78u8, 85u8, 77u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_NUMEQUAL
    seq![79u8, 80u8, 95u8, 78u8, 85u8, 77u8, 69u8, 81u8, 85u8, 65u8, 76u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_NUMEQUALVERIFY
    seq![79u8, 80u8, 95u8, 78u8, 85u8, 77u8, 78u8, 79u8, 84u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_NUMNOTEQUAL
    seq![79u8, 80u8, 95u8, 76u8, 69u8, 83u8, 83u8, 84u8, 72u8, 65u8, 78u8], // OP_LESSTHAN
    seq![79u8, 80u8, 95u8, 71u8, 82u8, 69u8, 65u8, 84u8, 69u8, 82u8, 84u8, 72u8, 65u8, 78u8], // OP_GREATERTHAN
    seq![79u8, 80u8, 95u8, 76u8, 69u8, 83u8, 83u8, 84u8, 72u8, 65u8, 78u8, 79u8, 82u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_LESSTHANOREQUAL
    seq![79u8, 80u8, 95u8, 71u8, 82u8, 69u8, 65u8, 84u8, 69u8, 82u8, 84u8, 72u8, 65u8, 78u8, 79u8, 82u8, 69u8, 81u8, 85u8, 65u8, 76u8], // OP_GREATERTHANOREQUAL
    seq![79u8, 80u8, 95u8, 77u8, 73u8, 78u8], // OP_MIN
    seq![79u8, 80u8, 95u8, 77u8, 65u8, 88u8], // OP_MAX
    seq![79u8, 80u8, 95u8, 87u8, 73u8, 84u8, 72u8, 73u8, 78u8], // OP_WITHIN
    seq![79u8, 80u8, 95u8, 82u8, 73u8, 80u8, 69u8, 77u8, 68u8, 49u8, 54u8, 48u8], // OP_RIPEMD160
    seq![79u8, 80u8, 95u8, 83u8, 72u8, 65u8, 49u8], // OP_SHA1
    seq![79u8, 80u8, 95u8, 83u8, 72u8, 65u8, 50u8, 53u8, 54u8], // OP_SHA256
    seq![79u8, 80u8, 95u8, 72u8, 65u8, 83u8, 72u8, 49u8, 54u8, 48u8], // OP_HASH160
    seq![79u8, 80u8, 95u8, 72u8, 65u8, 83u8, 72u8, 50u8, 53u8, 54u8], // OP_HASH256
    seq![79u8, 80u8, 95u8, 67u8, 79u8, 68u8, 69u8, 83u8, 69u8, 80u8, 65u8, 82u8, 65u8, 84u8, 79u8, 82u8], // OP_CODESEPARATOR
    seq![79u8, 80u8, 95u8, 67u8, 72u8, 69u8, 67u8, 75u8, 83u8, 73u8, 71u8], // OP_CHECKSIG
    seq![79u8, 80u8, 95u8, 67u8, 72u8, 69u8, 67u8, 75u8, 83u8, 73u8, 71u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_CHECKSIGVERIFY
    seq![79u8, 80u8, 95u8, 67u8, 72u8, 69u8, 67u8, 75u8, 77u8, 85u8, 76u8, 84u8, 73u8, 83u8, 73u8, 71u8], // OP_CHECKMULTISIG
    seq![79u8, 80u8, 95u8, 67u8, 72u8, 69u8, 67u8, 75u8, 77u8, 85u8, 76u8, 84u8, 73u8, 83u8, 73u8, 71u8, 86u8, 69u8, 82u8, 73u8, 70u8, 89u8], // OP_CHECKMULTISIGVERIFY
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 49u8], // OP_NOP1
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 50u8], // OP_NOP2
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 51u8], // OP_NOP3
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 52u8], // OP_NOP4
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 53u8], // OP_NOP5
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 54u8], // OP_NOP6
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 55u8], // OP_NOP7
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 56u8], // OP_NOP8
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 57u8], // OP_NOP9
    seq![79u8, 80u8, 95u8, 78u8, 79u8, 80u8, 49u8, 48u8], // OP_NOP10
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 56u8, 54u8], // OP_UNKNOWN186
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 56u8, 55u8], // OP_UNKNOWN187
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 56u8, 56u8], // OP_UNKNOWN188
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 56u8, 57u8], // OP_UNKNOWN189
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 48u8], // OP_UNKNOWN190
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 49u8], // OP_UNKNOWN191
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 50u8], // OP_UNKNOWN192
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 51u8], // OP_UNKNOWN193
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 52u8], // OP_UNKNOWN194
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 53u8], // OP_UNKNOWN195
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 54u8], // OP_UNKNOWN196
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 55u8], // OP_UNKNOWN197
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 56u8], // OP_UNKNOWN198
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 49u8, 57u8, 57u8], // OP_UNKNOWN199
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 48u8], // OP_UNKNOWN200
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 49u8], // OP_UNKNOWN201
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 50u8], // OP_UNKNOWN202
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 51u8], // OP_UNKNOWN203
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 52u8], // OP_UNKNOWN204
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 53u8], // OP_UNKNOWN205
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 54u8], // OP_UNKNOWN206
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 55u8], // OP_UNKNOWN207
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 56u8], // OP_UNKNOWN208
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 48u8, 57u8], // OP_UNKNOWN209
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 48u8], // OP_UNKNOWN210
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 49u8], // OP_UNKNOWN211
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 50u8], // OP_UNKNOWN212
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 51u8], // OP_UNKNOWN213
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 52u8], // OP_UNKNOWN214
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 53u8], // OP_UNKNOWN215
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 54u8], // OP_UNKNOWN216
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 55u8], // OP_UNKNOWN217
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 56u8], // OP_UNKNOWN218
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 49u8, 57u8], // OP_UNKNOWN219
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 48u8], // OP_UNKNOWN220
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 49u8], // OP_UNKNOWN221
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 50u8], // OP_UNKNOWN222
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 51u8], // OP_UNKNOWN223
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 52u8], // OP_UNKNOWN224
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 53u8], // OP_UNKNOWN225
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 54u8], // OP_UNKNOWN226
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 55u8], // OP_UNKNOWN227
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 56u8], // OP_UNKNOWN228
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 50u8, 57u8], // OP_UNKNOWN229
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 48u8], // OP_UNKNOWN230
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 49u8], // OP_UNKNOWN231
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 50u8], // OP_UNKNOWN232
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 51u8], // OP_UNKNOWN233
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 52u8], // OP_UNKNOWN234
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 53u8], // OP_UNKNOWN235
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 54u8], // OP_UNKNOWN236
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 55u8], // OP_UNKNOWN237
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 56u8], // OP_UNKNOWN238
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 51u8, 57u8], // OP_UNKNOWN239
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 48u8], // OP_UNKNOWN240
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 49u8], // OP_UNKNOWN241
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 50u8], // OP_UNKNOWN242
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 51u8], // OP_UNKNOWN243
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 52u8], // OP_UNKNOWN244
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 53u8], // OP_UNKNOWN245
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 54u8], // OP_UNKNOWN246
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 55u8], // OP_UNKNOWN247
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 56u8], // OP_UNKNOWN248
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 52u8, 57u8], // OP_UNKNOWN249
    seq![79u8, 80u8, 95u8, 83u8, 77u8, 65u8, 76u8, 76u8, 73u8, 78u8, 84u8, 69u8, 71u8, 69u8, 82u8], // OP_SMALLINTEGER
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 66u8, 75u8, 69u8, 89u8, 83u8], // OP_PUBKEYS
    seq![79u8, 80u8, 95u8, 85u8, 78u8, 75u8, 78u8, 79u8, 87u8, 78u8, 50u8, 53u8, 50u8], // OP_UNKNOWN252
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 66u8, 75u8, 69u8, 89u8, 72u8, 65u8, 83u8, 72u8], // OP_PUBKEYHASH
    seq![79u8, 80u8, 95u8, 80u8, 85u8, 66u8, 75u8, 69u8, 89u8], // OP_PUBKEY
    seq![79u8, 80u8, 95u8, 73u8, 78u8, 86u8, 65u8, 76u8, 73u8, 68u8, 79u8, 80u8, 67u8, 79u8, 68u8, 69u8], // OP_INVALIDOPCODE
] }
// where the name of every byte stands in op_keys
#[verifier::opaque]
pub open spec fn opn_at() -> Seq<int> { seq![
    71int, 78int, 79int, 80int, 81int, 82int, 83int, 84int, 85int, 86int, 99int, 100int, 101int, 102int, 103int, 104int,
    105int, 106int, 107int, 108int, 109int, 110int, 111int, 112int, 113int, 114int, 115int, 116int, 117int, 118int, 119int, 120int,
    121int, 122int, 123int, 124int, 125int, 126int, 127int, 128int, 129int, 130int, 131int, 132int, 133int, 134int, 135int, 136int,
    137int, 138int, 139int, 140int, 141int, 142int, 143int, 144int, 145int, 146int, 147int, 148int, 149int, 150int, 151int, 152int,
    153int, 154int, 155int, 156int, 157int, 158int, 159int, 160int, 161int, 162int, 163int, 164int, 175int, 176int, 177int, 96int,
    44int, 62int, 2int, 3int, 4int, 5int, 6int, 7int, 8int, 9int, 10int, 11int, 12int, 13int, 14int, 15int,
    16int, 30int, 35int, 17int, 74int, 76int, 173int, 46int, 69int, 94int, 91int, 182int, 251int, 65int, 40int, 43int,
    66int, 42int, 67int, 72int, 68int, 45int, 24int, 29int, 56int, 57int, 58int, 33int, 61int, 63int, 22int, 75int,
    167int, 97int, 60int, 87int, 21int, 18int, 36int, 70int, 248int, 178int, 179int, 37int, 38int, 41int, 39int, 89int,
    19int, 31int, 174int, 20int, 34int, 28int, 23int, 27int, 88int, 92int, 98int, 77int, 171int, 257int, 250int, 170int,
    249int, 258int, 259int, 26int, 25int, 95int, 180int, 59int, 93int, 165int, 166int, 254int, 169int, 256int, 253int, 260int,
    47int, 48int, 49int, 50int, 51int, 52int, 53int, 54int, 55int, 73int, 183int, 184int, 185int, 186int, 187int, 188int,
    189int, 190int, 191int, 192int, 193int, 194int, 195int, 196int, 197int, 198int, 199int, 200int, 201int, 202int, 203int, 204int,
    205int, 206int, 207int, 208int, 209int, 210int, 211int, 212int, 213int, 214int, 215int, 216int, 217int, 218int, 219int, 220int,
    221int, 222int, 223int, 224int, 225int, 226int, 227int, 228int, 229int, 230int, 231int, 232int, 233int, 234int, 235int, 236int,
    237int, 238int, 239int, 240int, 241int, 242int, 243int, 244int, 245int, 246int, 252int, 168int, 247int, 181int, 90int, 255int,
] }

// two tables are the same
pub open spec fn tab_same<K>(a: Seq<K>, b: Seq<K>, n: nat) -> bool decreases n { if n == 0 { true } else { a[n - 1] =~= b[n - 1] && tab_same(a, b, (n - 1) as nat) } }
pub open spec fn tab_eq<K>(a: Seq<K>, b: Seq<K>) -> bool { a.len() == b.len() && tab_same(a, b, a.len()) }
proof fn tab_same_at<K>(a: Seq<K>, b: Seq<K>, n: nat, i: int)
    requires tab_same(a, b, n), 0 <= i < n
    ensures a[i] == b[i]
    decreases n
{ if i < n - 1 { tab_same_at(a, b, (n - 1) as nat, i); } }
pub proof fn tab_eq_is<K>(a: Seq<K>, b: Seq<K>)
    requires tab_eq(a, b)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { tab_same_at(a, b, a.len(), i); }
    assert(a =~= b);
}
// first index of a key among the last n
pub open spec fn tab_idx<K>(t: Seq<K>, k: K, n: nat) -> int decreases n { if n == 0 { -1 } else if t[n - 1] == k { n - 1 } else { tab_idx(t, k, (n - 1) as nat) } }
pub open spec fn op_idx(w: Seq<u8>) -> int { tab_idx(op_keys(), w, op_keys().len()) }
pub open spec fn op_known(w: Seq<u8>) -> bool { op_idx(w) >= 0 }
pub open spec fn op_byte(w: Seq<u8>) -> u8 { op_vals()[op_idx(w)] }
pub open spec fn op_name(b: u8) -> Seq<u8> { opn_vals()[b as int] }

pub open spec fn no_sp(s: Seq<u8>, n: nat) -> bool decreases n { if n == 0 { true } else { s[n - 1] != 32 && no_sp(s, (n - 1) as nat) } }
pub open spec fn graphic(b: u8) -> bool { 33 <= b <= 126 }
pub open spec fn name_ok(b: u8, w: Seq<u8>, k: Seq<u8>, v: u8) -> bool {
    w.len() > 0 && no_sp(w, w.len()) && graphic(w[0]) && graphic(w[w.len() - 1]) && k =~= w && v == b
}
pub open spec fn names_ok(names: Seq<Seq<u8>>, at: Seq<int>, ks: Seq<Seq<u8>>, vs: Seq<u8>, lo: nat, n: nat) -> bool decreases n { if n <= lo { true } else { 0 <= at[n - 1] < 261 && name_ok((n - 1) as u8, names[n - 1], ks[at[n - 1]], vs[at[n - 1]]) && names_ok(names, at, ks, vs, lo, (n - 1) as nat) } }
pub open spec fn knum(k: Seq<u8>, n: nat) -> int decreases n { if n == 0 { 0 } else { knum(k, (n - 1) as nat) * 256 + k[n - 1] } }
pub open spec fn increasing(t: Seq<Seq<u8>>, lo: nat, n: nat) -> bool decreases n { if n <= lo + 1 { true } else { knum(t[n - 2], t[n - 2].len()) < knum(t[n - 1], t[n - 1].len()) && increasing(t, lo, (n - 1) as nat) } }
pub open spec fn all_opn(t: Seq<Seq<u8>>, n: nat) -> bool decreases n { if n == 0 { true } else { t[n - 1].len() > 0 && t[n - 1][0] == 79 && all_opn(t, (n - 1) as nat) } }
proof fn op_keys_facts()
    ensures op_keys().len() == 261, op_vals().len() == 261, opn_vals().len() == 256, opn_keys().len() == 256, opn_at().len() == 256, increasing(op_keys(), 0, 261), all_opn(op_keys(), 261),
        names_ok(opn_vals(), opn_at(), op_keys(), op_vals(), 0, 256)
{
    assert(op_keys().len() == 261) by(compute_only);
    assert(op_vals().len() == 261) by(compute_only);
    assert(opn_vals().len() == 256) by(compute_only);
    assert(opn_keys().len() == 256) by(compute_only);
    assert(opn_at().len() == 256) by(compute_only);
    assert(increasing(op_keys(), 0, 261)) by(compute_only);
    assert(all_opn(op_keys(), 261)) by(compute_only);
    assert(names_ok(opn_vals(), opn_at(), op_keys(), op_vals(), 0, 256)) by(compute_only);
}
pub proof fn op_keys_len() ensures op_keys().len() == 261, op_vals().len() == 261, opn_vals().len() == 256, opn_keys().len() == 256 { op_keys_facts(); }
proof fn increasing_at(t: Seq<Seq<u8>>, n: nat, i: int, j: int)
    requires increasing(t, 0, n), 0 <= i < j < n
    ensures knum(t[i], t[i].len()) < knum(t[j], t[j].len())
    decreases n
{
    if j < n - 1 { increasing_at(t, (n - 1) as nat, i, j); }
    else if i < j - 1 { increasing_at(t, (n - 1) as nat, i, j - 1); }
}
proof fn tab_idx_at(t: Seq<Seq<u8>>, k: Seq<u8>, n: nat)
    ensures ({ let i = tab_idx(t, k, n); -1 <= i < n && (i >= 0 ==> t[i] == k) })
    decreases n
{ if n > 0 { tab_idx_at(t, k, (n - 1) as nat); } }
proof fn tab_idx_has(t: Seq<Seq<u8>>, i: int, n: nat)
    requires 0 <= i < n
    ensures tab_idx(t, t[i], n) >= i
    decreases n
{ if i < n - 1 && t[n - 1] != t[i] { tab_idx_has(t, i, (n - 1) as nat); } }
proof fn names_ok_at(names: Seq<Seq<u8>>, at: Seq<int>, ks: Seq<Seq<u8>>, vs: Seq<u8>, n: nat, b: int)
    requires names_ok(names, at, ks, vs, 0, n), 0 <= b < n
    ensures 0 <= at[b] < 261, name_ok(b as u8, names[b], ks[at[b]], vs[at[b]])
    decreases n
{ if b < n - 1 { names_ok_at(names, at, ks, vs, (n - 1) as nat, b); } }
// C22: every byte value has a name, which reads back to it
pub proof fn op_name_reads_back(b: u8)
    ensures op_name(b).len() > 0, no_sp(op_name(b), op_name(b).len()), graphic(op_name(b)[0]), graphic(op_name(b).last()),
        op_known(op_name(b)), op_byte(op_name(b)) == b
{
    op_keys_facts();
    names_ok_at(opn_vals(), opn_at(), op_keys(), op_vals(), 256, b as int);
    let i = opn_at()[b as int]; let w = op_name(b);
    assert(op_keys()[i] =~= w);
    tab_idx_has(op_keys(), i, 261);
    let j = op_idx(w);
    tab_idx_at(op_keys(), w, 261);
    if i < j { increasing_at(op_keys(), 261, i, j); }
}
proof fn all_opn_at(t: Seq<Seq<u8>>, n: nat, i: int)
    requires all_opn(t, n), 0 <= i < n
    ensures t[i].len() > 0, t[i][0] == 79
    decreases n
{ if i < n - 1 { all_opn_at(t, (n - 1) as nat, i); } }
pub proof fn op_known_O(w: Seq<u8>)
    ensures op_known(w) ==> w.len() > 0 && w[0] == 79
{
    op_keys_facts();
    tab_idx_at(op_keys(), w, 261);
    if op_known(w) { all_opn_at(op_keys(), 261, op_idx(w)); }
}
pub open spec fn ident(t: Seq<u8>, n: nat) -> bool decreases n { if n == 0 { true } else { t[n - 1] == (n - 1) as u8 && ident(t, (n - 1) as nat) } }
proof fn ident_idx(t: Seq<u8>, n: nat, b: u8)
    requires ident(t, n), n <= 256
    ensures tab_idx(t, b, n) == (if b < n { b as int } else { -1 })
    decreases n
{ if n > 0 { ident_idx(t, (n - 1) as nat, b); } }
pub broadcast proof fn opn_idx(b: u8)
    ensures #[trigger] tab_idx(opn_keys(), b, opn_keys().len()) == b
{
    op_keys_facts();
    assert(ident(opn_keys(), 256)) by(compute_only);
    ident_idx(opn_keys(), 256, b);
}
