use crate::c02::*;
use sscanf::sscanf;

radix! {
    c02_u64 u64:
        0 "{:x}" 16 Optional "1"
        1 "{:o}" 8 Optional "1"
        2 "{:b}" 2 Optional "1"
        3 "{:#x}" 16 Required "0x1"
        4 "{:#o}" 8 Required "0o1"
        5 "{:#b}" 2 Required "0b1"
        6 "{:r2}" 2 Never "1"
        7 "{:r3}" 3 Never "1"
        8 "{:r4}" 4 Never "1"
        9 "{:r5}" 5 Never "1"
        10 "{:r6}" 6 Never "1"
        11 "{:r7}" 7 Never "1"
        12 "{:r8}" 8 Never "1"
        13 "{:r9}" 9 Never "1"
        14 "{:r10}" 10 Never "1"
        15 "{:r11}" 11 Never "1"
        16 "{:r12}" 12 Never "1"
        17 "{:r13}" 13 Never "1"
        18 "{:r14}" 14 Never "1"
        19 "{:r15}" 15 Never "1"
        20 "{:r16}" 16 Never "1"
        21 "{:r17}" 17 Never "1"
        22 "{:r18}" 18 Never "1"
        23 "{:r19}" 19 Never "1"
        24 "{:r20}" 20 Never "1"
        25 "{:r21}" 21 Never "1"
        26 "{:r22}" 22 Never "1"
        27 "{:r23}" 23 Never "1"
        28 "{:r24}" 24 Never "1"
        29 "{:r25}" 25 Never "1"
        30 "{:r26}" 26 Never "1"
        31 "{:r27}" 27 Never "1"
        32 "{:r28}" 28 Never "1"
        33 "{:r29}" 29 Never "1"
        34 "{:r30}" 30 Never "1"
        35 "{:r31}" 31 Never "1"
        36 "{:r32}" 32 Never "1"
        37 "{:r33}" 33 Never "1"
        38 "{:r34}" 34 Never "1"
        39 "{:r35}" 35 Never "1"
        40 "{:r36}" 36 Never "1"
        41 "{:x#}" 16 Required "0x1"
        42 "{:o#}" 8 Required "0o1"
        43 "{:b#}" 2 Required "0b1"
    c02_u128 u128:
        0 "{:x}" 16 Optional "1"
        1 "{:o}" 8 Optional "1"
        2 "{:b}" 2 Optional "1"
        3 "{:#x}" 16 Required "0x1"
        4 "{:#o}" 8 Required "0o1"
        5 "{:#b}" 2 Required "0b1"
        6 "{:r2}" 2 Never "1"
        7 "{:r3}" 3 Never "1"
        8 "{:r4}" 4 Never "1"
        9 "{:r5}" 5 Never "1"
        10 "{:r6}" 6 Never "1"
        11 "{:r7}" 7 Never "1"
        12 "{:r8}" 8 Never "1"
        13 "{:r9}" 9 Never "1"
        14 "{:r10}" 10 Never "1"
        15 "{:r11}" 11 Never "1"
        16 "{:r12}" 12 Never "1"
        17 "{:r13}" 13 Never "1"
        18 "{:r14}" 14 Never "1"
        19 "{:r15}" 15 Never "1"
        20 "{:r16}" 16 Never "1"
        21 "{:r17}" 17 Never "1"
        22 "{:r18}" 18 Never "1"
        23 "{:r19}" 19 Never "1"
        24 "{:r20}" 20 Never "1"
        25 "{:r21}" 21 Never "1"
        26 "{:r22}" 22 Never "1"
        27 "{:r23}" 23 Never "1"
        28 "{:r24}" 24 Never "1"
        29 "{:r25}" 25 Never "1"
        30 "{:r26}" 26 Never "1"
        31 "{:r27}" 27 Never "1"
        32 "{:r28}" 28 Never "1"
        33 "{:r29}" 29 Never "1"
        34 "{:r30}" 30 Never "1"
        35 "{:r31}" 31 Never "1"
        36 "{:r32}" 32 Never "1"
        37 "{:r33}" 33 Never "1"
        38 "{:r34}" 34 Never "1"
        39 "{:r35}" 35 Never "1"
        40 "{:r36}" 36 Never "1"
        41 "{:x#}" 16 Required "0x1"
        42 "{:o#}" 8 Required "0o1"
        43 "{:b#}" 2 Required "0b1"
    c02_usize usize:
        0 "{:x}" 16 Optional "1"
        1 "{:o}" 8 Optional "1"
        2 "{:b}" 2 Optional "1"
        3 "{:#x}" 16 Required "0x1"
        4 "{:#o}" 8 Required "0o1"
        5 "{:#b}" 2 Required "0b1"
        6 "{:r2}" 2 Never "1"
        7 "{:r3}" 3 Never "1"
        8 "{:r4}" 4 Never "1"
        9 "{:r5}" 5 Never "1"
        10 "{:r6}" 6 Never "1"
        11 "{:r7}" 7 Never "1"
        12 "{:r8}" 8 Never "1"
        13 "{:r9}" 9 Never "1"
        14 "{:r10}" 10 Never "1"
        15 "{:r11}" 11 Never "1"
        16 "{:r12}" 12 Never "1"
        17 "{:r13}" 13 Never "1"
        18 "{:r14}" 14 Never "1"
        19 "{:r15}" 15 Never "1"
        20 "{:r16}" 16 Never "1"
        21 "{:r17}" 17 Never "1"
        22 "{:r18}" 18 Never "1"
        23 "{:r19}" 19 Never "1"
        24 "{:r20}" 20 Never "1"
        25 "{:r21}" 21 Never "1"
        26 "{:r22}" 22 Never "1"
        27 "{:r23}" 23 Never "1"
        28 "{:r24}" 24 Never "1"
        29 "{:r25}" 25 Never "1"
        30 "{:r26}" 26 Never "1"
        31 "{:r27}" 27 Never "1"
        32 "{:r28}" 28 Never "1"
        33 "{:r29}" 29 Never "1"
        34 "{:r30}" 30 Never "1"
        35 "{:r31}" 31 Never "1"
        36 "{:r32}" 32 Never "1"
        37 "{:r33}" 33 Never "1"
        38 "{:r34}" 34 Never "1"
        39 "{:r35}" 35 Never "1"
        40 "{:r36}" 36 Never "1"
        41 "{:x#}" 16 Required "0x1"
        42 "{:o#}" 8 Required "0o1"
        43 "{:b#}" 2 Required "0b1"
}
