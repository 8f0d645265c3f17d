{"1d4opvcbmknaf", "p4xymqhocl12h"}, /* 3c32e01c9d1345cf */
{"2uw2fj2pc41mj", "friplzrxisabk"}, /* 9c98d623b3fdb946 */
{"3sdvmtxpxufrv", "rt4bbe3learxj"}, /* 8213c30e549c357 */
{"kdaezze0yia2j", "lfy0h0x2ubbyl"}, /* 3262b40b5a06c7b0 */
{"4ykykuzslnn1c", "1t2k22ouqgeni"}, /* d0ac9e4b25dfbcf */
{"egm2j0vcmzt2a", "ipiyyw3kkj0dv"}, /* c831cf7a64f7b3dd */
