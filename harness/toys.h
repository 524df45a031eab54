// Generated by tools/gen_toys.py (brute force, independent of the library).
#ifndef TOYS_H
#define TOYS_H
typedef struct { const char *name, *type; long r; const char *text; } toy_t;
static const toy_t toys[] = {
  { "a_r7_q83_2_1_pp", "a", 7, "type a\nq 83\nh 12\nr 7\nexp2 2\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r7_q727_2_1_pp", "a", 7, "type a\nq 727\nh 104\nr 7\nexp2 2\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r5_q19_2_1_pm", "a", 5, "type a\nq 19\nh 4\nr 5\nexp2 2\nexp1 1\nsign1 1\nsign0 -1\n" },
  { "a_r5_q239_2_1_pm", "a", 5, "type a\nq 239\nh 48\nr 5\nexp2 2\nexp1 1\nsign1 1\nsign0 -1\n" },
  { "a_r3_q11_2_1_mp", "a", 3, "type a\nq 11\nh 4\nr 3\nexp2 2\nexp1 1\nsign1 -1\nsign0 1\n" },
  { "a_r3_q131_2_1_mp", "a", 3, "type a\nq 131\nh 44\nr 3\nexp2 2\nexp1 1\nsign1 -1\nsign0 1\n" },
  { "a_r11_q43_3_1_pp", "a", 11, "type a\nq 43\nh 4\nr 11\nexp2 3\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r11_q571_3_1_pp", "a", 11, "type a\nq 571\nh 52\nr 11\nexp2 3\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r7_q83_3_1_mp", "a", 7, "type a\nq 83\nh 12\nr 7\nexp2 3\nexp1 1\nsign1 -1\nsign0 1\n" },
  { "a_r7_q727_3_1_mp", "a", 7, "type a\nq 727\nh 104\nr 7\nexp2 3\nexp1 1\nsign1 -1\nsign0 1\n" },
  { "a_r5_q19_3_1_mm", "a", 5, "type a\nq 19\nh 4\nr 5\nexp2 3\nexp1 1\nsign1 -1\nsign0 -1\n" },
  { "a_r5_q239_3_1_mm", "a", 5, "type a\nq 239\nh 48\nr 5\nexp2 3\nexp1 1\nsign1 -1\nsign0 -1\n" },
  { "a_r13_q103_3_2_pp", "a", 13, "type a\nq 103\nh 8\nr 13\nexp2 3\nexp1 2\nsign1 1\nsign0 1\n" },
  { "a_r13_q1039_3_2_pp", "a", 13, "type a\nq 1039\nh 80\nr 13\nexp2 3\nexp1 2\nsign1 1\nsign0 1\n" },
  { "a_r11_q43_3_2_pm", "a", 11, "type a\nq 43\nh 4\nr 11\nexp2 3\nexp1 2\nsign1 1\nsign0 -1\n" },
  { "a_r11_q571_3_2_pm", "a", 11, "type a\nq 571\nh 52\nr 11\nexp2 3\nexp1 2\nsign1 1\nsign0 -1\n" },
  { "a_r5_q19_3_2_mp", "a", 5, "type a\nq 19\nh 4\nr 5\nexp2 3\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "a_r5_q239_3_2_mp", "a", 5, "type a\nq 239\nh 48\nr 5\nexp2 3\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "a_r3_q11_3_2_mm", "a", 3, "type a\nq 11\nh 4\nr 3\nexp2 3\nexp1 2\nsign1 -1\nsign0 -1\n" },
  { "a_r3_q131_3_2_mm", "a", 3, "type a\nq 131\nh 44\nr 3\nexp2 3\nexp1 2\nsign1 -1\nsign0 -1\n" },
  { "a_r19_q151_4_1_pp", "a", 19, "type a\nq 151\nh 8\nr 19\nexp2 4\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r19_q1367_4_1_pp", "a", 19, "type a\nq 1367\nh 72\nr 19\nexp2 4\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r17_q67_4_1_pm", "a", 17, "type a\nq 67\nh 4\nr 17\nexp2 4\nexp1 1\nsign1 1\nsign0 -1\n" },
  { "a_r17_q883_4_1_pm", "a", 17, "type a\nq 883\nh 52\nr 17\nexp2 4\nexp1 1\nsign1 1\nsign0 -1\n" },
  { "a_r13_q103_4_1_mm", "a", 13, "type a\nq 103\nh 8\nr 13\nexp2 4\nexp1 1\nsign1 -1\nsign0 -1\n" },
  { "a_r13_q1039_4_1_mm", "a", 13, "type a\nq 1039\nh 80\nr 13\nexp2 4\nexp1 1\nsign1 -1\nsign0 -1\n" },
  { "a_r19_q151_4_2_pm", "a", 19, "type a\nq 151\nh 8\nr 19\nexp2 4\nexp1 2\nsign1 1\nsign0 -1\n" },
  { "a_r19_q1367_4_2_pm", "a", 19, "type a\nq 1367\nh 72\nr 19\nexp2 4\nexp1 2\nsign1 1\nsign0 -1\n" },
  { "a_r13_q103_4_2_mp", "a", 13, "type a\nq 103\nh 8\nr 13\nexp2 4\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "a_r13_q1039_4_2_mp", "a", 13, "type a\nq 1039\nh 80\nr 13\nexp2 4\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "a_r11_q43_4_2_mm", "a", 11, "type a\nq 43\nh 4\nr 11\nexp2 4\nexp1 2\nsign1 -1\nsign0 -1\n" },
  { "a_r11_q571_4_2_mm", "a", 11, "type a\nq 571\nh 52\nr 11\nexp2 4\nexp1 2\nsign1 -1\nsign0 -1\n" },
  { "a_r23_q367_4_3_pm", "a", 23, "type a\nq 367\nh 16\nr 23\nexp2 4\nexp1 3\nsign1 1\nsign0 -1\n" },
  { "a_r23_q3863_4_3_pm", "a", 23, "type a\nq 3863\nh 168\nr 23\nexp2 4\nexp1 3\nsign1 1\nsign0 -1\n" },
  { "a_r7_q83_4_3_mm", "a", 7, "type a\nq 83\nh 12\nr 7\nexp2 4\nexp1 3\nsign1 -1\nsign0 -1\n" },
  { "a_r7_q727_4_3_mm", "a", 7, "type a\nq 727\nh 104\nr 7\nexp2 4\nexp1 3\nsign1 -1\nsign0 -1\n" },
  { "a_r31_q619_5_1_mp", "a", 31, "type a\nq 619\nh 20\nr 31\nexp2 5\nexp1 1\nsign1 -1\nsign0 1\n" },
  { "a_r31_q5827_5_1_mp", "a", 31, "type a\nq 5827\nh 188\nr 31\nexp2 5\nexp1 1\nsign1 -1\nsign0 1\n" },
  { "a_r29_q347_5_1_mm", "a", 29, "type a\nq 347\nh 12\nr 29\nexp2 5\nexp1 1\nsign1 -1\nsign0 -1\n" },
  { "a_r29_q3943_5_1_mm", "a", 29, "type a\nq 3943\nh 136\nr 29\nexp2 5\nexp1 1\nsign1 -1\nsign0 -1\n" },
  { "a_r37_q443_5_2_pp", "a", 37, "type a\nq 443\nh 12\nr 37\nexp2 5\nexp1 2\nsign1 1\nsign0 1\n" },
  { "a_r37_q3847_5_2_pp", "a", 37, "type a\nq 3847\nh 104\nr 37\nexp2 5\nexp1 2\nsign1 1\nsign0 1\n" },
  { "a_r29_q347_5_2_mp", "a", 29, "type a\nq 347\nh 12\nr 29\nexp2 5\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "a_r29_q3943_5_2_mp", "a", 29, "type a\nq 3943\nh 136\nr 29\nexp2 5\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "a_r41_q163_5_3_pp", "a", 41, "type a\nq 163\nh 4\nr 41\nexp2 5\nexp1 3\nsign1 1\nsign0 1\n" },
  { "a_r41_q2131_5_3_pp", "a", 41, "type a\nq 2131\nh 52\nr 41\nexp2 5\nexp1 3\nsign1 1\nsign0 1\n" },
  { "a_r23_q367_5_3_mm", "a", 23, "type a\nq 367\nh 16\nr 23\nexp2 5\nexp1 3\nsign1 -1\nsign0 -1\n" },
  { "a_r23_q3863_5_3_mm", "a", 23, "type a\nq 3863\nh 168\nr 23\nexp2 5\nexp1 3\nsign1 -1\nsign0 -1\n" },
  { "a_r47_q563_5_4_pm", "a", 47, "type a\nq 563\nh 12\nr 47\nexp2 5\nexp1 4\nsign1 1\nsign0 -1\n" },
  { "a_r47_q5639_5_4_pm", "a", 47, "type a\nq 5639\nh 120\nr 47\nexp2 5\nexp1 4\nsign1 1\nsign0 -1\n" },
  { "a_r17_q67_5_4_mp", "a", 17, "type a\nq 67\nh 4\nr 17\nexp2 5\nexp1 4\nsign1 -1\nsign0 1\n" },
  { "a_r17_q883_5_4_mp", "a", 17, "type a\nq 883\nh 52\nr 17\nexp2 5\nexp1 4\nsign1 -1\nsign0 1\n" },
  { "a_r67_q1607_6_1_pp", "a", 67, "type a\nq 1607\nh 24\nr 67\nexp2 6\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r61_q487_6_1_mm", "a", 61, "type a\nq 487\nh 8\nr 61\nexp2 6\nexp1 1\nsign1 -1\nsign0 -1\n" },
  { "a_r67_q1607_6_2_pm", "a", 67, "type a\nq 1607\nh 24\nr 67\nexp2 6\nexp1 2\nsign1 1\nsign0 -1\n" },
  { "a_r61_q487_6_2_mp", "a", 61, "type a\nq 487\nh 8\nr 61\nexp2 6\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "a_r59_q3067_6_2_mm", "a", 59, "type a\nq 3067\nh 52\nr 59\nexp2 6\nexp1 2\nsign1 -1\nsign0 -1\n" },
  { "a_r73_q1459_6_3_pp", "a", 73, "type a\nq 1459\nh 20\nr 73\nexp2 6\nexp1 3\nsign1 1\nsign0 1\n" },
  { "a_r71_q283_6_3_pm", "a", 71, "type a\nq 283\nh 4\nr 71\nexp2 6\nexp1 3\nsign1 1\nsign0 -1\n" },
  { "a_r79_q631_6_4_pm", "a", 79, "type a\nq 631\nh 8\nr 79\nexp2 6\nexp1 4\nsign1 1\nsign0 -1\n" },
  { "a_r47_q563_6_4_mm", "a", 47, "type a\nq 563\nh 12\nr 47\nexp2 6\nexp1 4\nsign1 -1\nsign0 -1\n" },
  { "a_r97_q1163_6_5_pp", "a", 97, "type a\nq 1163\nh 12\nr 97\nexp2 6\nexp1 5\nsign1 1\nsign0 1\n" },
  { "a_r31_q619_6_5_mm", "a", 31, "type a\nq 619\nh 20\nr 31\nexp2 6\nexp1 5\nsign1 -1\nsign0 -1\n" },
  { "a_r131_q523_7_1_pp", "a", 131, "type a\nq 523\nh 4\nr 131\nexp2 7\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r127_q1523_7_1_mp", "a", 127, "type a\nq 1523\nh 12\nr 127\nexp2 7\nexp1 1\nsign1 -1\nsign0 1\n" },
  { "a_r131_q523_7_2_pm", "a", 131, "type a\nq 523\nh 4\nr 131\nexp2 7\nexp1 2\nsign1 1\nsign0 -1\n" },
  { "a_r137_q547_7_3_pp", "a", 137, "type a\nq 547\nh 4\nr 137\nexp2 7\nexp1 3\nsign1 1\nsign0 1\n" },
  { "a_r113_q2711_7_4_mp", "a", 113, "type a\nq 2711\nh 24\nr 113\nexp2 7\nexp1 4\nsign1 -1\nsign0 1\n" },
  { "a_r97_q1163_7_5_mp", "a", 97, "type a\nq 1163\nh 12\nr 97\nexp2 7\nexp1 5\nsign1 -1\nsign0 1\n" },
  { "a_r193_q1543_7_6_pp", "a", 193, "type a\nq 1543\nh 8\nr 193\nexp2 7\nexp1 6\nsign1 1\nsign0 1\n" },
  { "a_r191_q4583_7_6_pm", "a", 191, "type a\nq 4583\nh 24\nr 191\nexp2 7\nexp1 6\nsign1 1\nsign0 -1\n" },
  { "a_r257_q3083_8_1_pm", "a", 257, "type a\nq 3083\nh 12\nr 257\nexp2 8\nexp1 1\nsign1 1\nsign0 -1\n" },
  { "a_r251_q3011_8_2_mm", "a", 251, "type a\nq 3011\nh 12\nr 251\nexp2 8\nexp1 2\nsign1 -1\nsign0 -1\n" },
  { "a_r263_q1051_8_3_pm", "a", 263, "type a\nq 1051\nh 4\nr 263\nexp2 8\nexp1 3\nsign1 1\nsign0 -1\n" },
  { "a_r271_q3251_8_4_pm", "a", 271, "type a\nq 3251\nh 12\nr 271\nexp2 8\nexp1 4\nsign1 1\nsign0 -1\n" },
  { "a_r241_q5783_8_4_mp", "a", 241, "type a\nq 5783\nh 24\nr 241\nexp2 8\nexp1 4\nsign1 -1\nsign0 1\n" },
  { "a_r239_q3823_8_4_mm", "a", 239, "type a\nq 3823\nh 16\nr 239\nexp2 8\nexp1 4\nsign1 -1\nsign0 -1\n" },
  { "a_r223_q1783_8_5_mm", "a", 223, "type a\nq 1783\nh 8\nr 223\nexp2 8\nexp1 5\nsign1 -1\nsign0 -1\n" },
  { "a_r193_q1543_8_6_mp", "a", 193, "type a\nq 1543\nh 8\nr 193\nexp2 8\nexp1 6\nsign1 -1\nsign0 1\n" },
  { "a_r191_q4583_8_6_mm", "a", 191, "type a\nq 4583\nh 24\nr 191\nexp2 8\nexp1 6\nsign1 -1\nsign0 -1\n" },
  { "a_r383_q1531_8_7_pm", "a", 383, "type a\nq 1531\nh 4\nr 383\nexp2 8\nexp1 7\nsign1 1\nsign0 -1\n" },
  { "a_r127_q1523_8_7_mm", "a", 127, "type a\nq 1523\nh 12\nr 127\nexp2 8\nexp1 7\nsign1 -1\nsign0 -1\n" },
  { "a_r7_big70", "a", 7, "type a\nq 8264141345021879126963\nh 1180591620717411303852\nr 7\nexp2 2\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r7_big130", "a", 7, "type a\nq 9527906273786276976974489008089509921327\nh 1361129467683753853853498429727072845904\nr 7\nexp2 2\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r11_big70", "a", 11, "type a\nq 12986507827891524340523\nh 1180591620717411303684\nr 11\nexp2 3\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r11_big130", "a", 11, "type a\nq 14972424144521292392388482726997801304283\nh 1361129467683753853853498429727072845844\nr 11\nexp2 3\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r19_big70", "a", 19, "type a\nq 22431240793630814765663\nh 1180591620717411303456\nr 19\nexp2 4\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r19_big130", "a", 19, "type a\nq 25861459885991323223216470164814384073543\nh 1361129467683753853853498429727072845976\nr 19\nexp2 4\nexp1 1\nsign1 1\nsign0 1\n" },
  { "a_r37_big70", "a", 37, "type a\nq 43681889966544218230979\nh 1180591620717411303540\nr 37\nexp2 5\nexp1 2\nsign1 1\nsign0 1\n" },
  { "a_r37_big130", "a", 37, "type a\nq 50361790304298892592579441899901695298447\nh 1361129467683753853853498429727072845904\nr 37\nexp2 5\nexp1 2\nsign1 1\nsign0 1\n" },
  { "a_r13_big70", "a", 13, "type a\nq 15347691069326346946643\nh 1180591620717411303588\nr 13\nexp2 4\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "a_r13_big130", "a", 13, "type a\nq 17694683079888800100095479586451947001431\nh 1361129467683753853853498429727072846264\nr 13\nexp2 4\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "a_r17_big70", "a", 17, "type a\nq 20070057552195992158547\nh 1180591620717411303444\nr 17\nexp2 4\nexp1 1\nsign1 1\nsign0 -1\n" },
  { "a_r17_big130", "a", 17, "type a\nq 23139200950623815515509473305360238385263\nh 1361129467683753853853498429727072846192\nr 17\nexp2 4\nexp1 1\nsign1 1\nsign0 -1\n" },
  { "a_r29_big70", "a", 29, "type a\nq 34237157000804927801267\nh 1180591620717411303492\nr 29\nexp2 5\nexp1 1\nsign1 -1\nsign0 -1\n" },
  { "a_r29_big130", "a", 29, "type a\nq 39472754562828861761751454462085112537131\nh 1361129467683753853853498429727072846108\nr 29\nexp2 5\nexp1 1\nsign1 -1\nsign0 -1\n" },
  { "a1_n15_p59", "a1", 15, "type a1\np 59\nn 15\nl 4\n" },
  { "a1_n15_p419", "a1", 15, "type a1\np 419\nn 15\nl 28\n" },
  { "a1_n21_p83", "a1", 21, "type a1\np 83\nn 21\nl 4\n" },
  { "a1_n21_p839", "a1", 21, "type a1\np 839\nn 21\nl 40\n" },
  { "a1_n33_p131", "a1", 33, "type a1\np 131\nn 33\nl 4\n" },
  { "a1_n33_p1319", "a1", 33, "type a1\np 1319\nn 33\nl 40\n" },
  { "a1_n35_p139", "a1", 35, "type a1\np 139\nn 35\nl 4\n" },
  { "a1_n35_p839", "a1", 35, "type a1\np 839\nn 35\nl 24\n" },
  { "a1_n39_p311", "a1", 39, "type a1\np 311\nn 39\nl 8\n" },
  { "a1_n39_p2963", "a1", 39, "type a1\np 2963\nn 39\nl 76\n" },
  { "a1_n55_p439", "a1", 55, "type a1\np 439\nn 55\nl 8\n" },
  { "a1_n55_p3079", "a1", 55, "type a1\np 3079\nn 55\nl 56\n" },
  { "a1_n77_p307", "a1", 77, "type a1\np 307\nn 77\nl 4\n" },
  { "a1_n77_p1847", "a1", 77, "type a1\np 1847\nn 77\nl 24\n" },
  { "a1_n91_p727", "a1", 91, "type a1\np 727\nn 91\nl 8\n" },
  { "a1_n91_p4003", "a1", 91, "type a1\np 4003\nn 91\nl 44\n" },
  { "a1_n105_p419", "a1", 105, "type a1\np 419\nn 105\nl 4\n" },
  { "a1_n105_p3359", "a1", 105, "type a1\np 3359\nn 105\nl 32\n" },
  { "a1_n143_p571", "a1", 143, "type a1\np 571\nn 143\nl 4\n" },
  { "a1_n143_p4003", "a1", 143, "type a1\np 4003\nn 143\nl 28\n" },
  { "a1_n221_p883", "a1", 221, "type a1\np 883\nn 221\nl 4\n" },
  { "a1_n221_p5303", "a1", 221, "type a1\np 5303\nn 221\nl 24\n" },
  { "a1_n323_p1291", "a1", 323, "type a1\np 1291\nn 323\nl 4\n" },
  { "a1_n323_p9043", "a1", 323, "type a1\np 9043\nn 323\nl 28\n" },
  { "a1_n437_p1747", "a1", 437, "type a1\np 1747\nn 437\nl 4\n" },
  { "a1_n437_p10487", "a1", 437, "type a1\np 10487\nn 437\nl 24\n" },
  { "a1_n667_p13339", "a1", 667, "type a1\np 13339\nn 667\nl 20\n" },
  { "a1_n667_p80039", "a1", 667, "type a1\np 80039\nn 667\nl 120\n" },
  { "a1_n899_p25171", "a1", 899, "type a1\np 25171\nn 899\nl 28\n" },
  { "a1_n899_p133051", "a1", 899, "type a1\np 133051\nn 899\nl 148\n" },
  { "a1_n1147_p13763", "a1", 1147, "type a1\np 13763\nn 1147\nl 12\n" },
  { "a1_n1147_p133051", "a1", 1147, "type a1\np 133051\nn 1147\nl 116\n" },
  { "a1_n1517_p6067", "a1", 1517, "type a1\np 6067\nn 1517\nl 4\n" },
  { "a1_n1517_p60679", "a1", 1517, "type a1\np 60679\nn 1517\nl 40\n" },
  { "a1_n5_p19", "a1", 5, "type a1\np 19\nn 5\nl 4\n" },
  { "a1_n5_p139", "a1", 5, "type a1\np 139\nn 5\nl 28\n" },
  { "a1_n7_p83", "a1", 7, "type a1\np 83\nn 7\nl 12\n" },
  { "a1_n7_p503", "a1", 7, "type a1\np 503\nn 7\nl 72\n" },
  { "a1_n13_p103", "a1", 13, "type a1\np 103\nn 13\nl 8\n" },
  { "a1_n13_p571", "a1", 13, "type a1\np 571\nn 13\nl 44\n" },
  { "a1_n31_p619", "a1", 31, "type a1\np 619\nn 31\nl 20\n" },
  { "a1_n31_p3347", "a1", 31, "type a1\np 3347\nn 31\nl 108\n" },
  { "a1_n127_p1523", "a1", 127, "type a1\np 1523\nn 127\nl 12\n" },
  { "a1_n127_p10159", "a1", 127, "type a1\np 10159\nn 127\nl 80\n" },
  { "a1_n9_p71", "a1", 9, "type a1\np 71\nn 9\nl 8\n" },
  { "a1_n9_p467", "a1", 9, "type a1\np 467\nn 9\nl 52\n" },
  { "a1_n25_p199", "a1", 25, "type a1\np 199\nn 25\nl 8\n" },
  { "a1_n25_p1399", "a1", 25, "type a1\np 1399\nn 25\nl 56\n" },
  { "a1_n45_p179", "a1", 45, "type a1\np 179\nn 45\nl 4\n" },
  { "a1_n45_p1259", "a1", 45, "type a1\np 1259\nn 45\nl 28\n" },
  { "d_r7_q5_h1", "d", 7, "type d\nq 5\nn 7\nh 1\nr 7\na 2\nb 1\nk 6\nnk 15680\nhk 320\ncoeff0 3\ncoeff1 1\ncoeff2 2\nnqr 2\n" },
  { "d_r7_q17_h2", "d", 7, "type d\nq 17\nn 14\nh 2\nr 7\na 1\nb 4\nk 6\nnk 24127796\nhk 492404\ncoeff0 6\ncoeff1 7\ncoeff2 0\nnqr 3\n" },
  { "d_r13_q17_h1", "d", 13, "type d\nq 17\nn 13\nh 1\nr 13\na 6\nb 8\nk 6\nnk 24130496\nhk 142784\ncoeff0 6\ncoeff1 7\ncoeff2 0\nnqr 3\n" },
  { "d_r13_q23_h2", "d", 13, "type d\nq 23\nn 26\nh 2\nr 13\na 1\nb 18\nk 6\nnk 148043324\nhk 875996\ncoeff0 2\ncoeff1 12\ncoeff2 9\nnqr 5\n" },
  { "d_r19_q31_h2", "d", 19, "type d\nq 31\nn 38\nh 2\nr 19\na 1\nb 27\nk 6\nnk 887446300\nhk 2458300\ncoeff0 13\ncoeff1 11\ncoeff2 1\nnqr 3\n" },
  { "d_r31_q37_h1", "d", 31, "type d\nq 37\nn 31\nh 1\nr 31\na 2\nb 8\nk 6\nnk 2565639360\nhk 2669760\ncoeff0 21\ncoeff1 13\ncoeff2 20\nnqr 2\n" },
  { "d_r43_q37_h1", "d", 43, "type d\nq 37\nn 43\nh 1\nr 43\na 2\nb 9\nk 6\nnk 2565642816\nhk 1387584\ncoeff0 21\ncoeff1 13\ncoeff2 20\nnqr 2\n" },
  { "d_r37_q101_h3", "d", 37, "type d\nq 101\nn 111\nh 3\nr 37\na 1\nb 43\nk 6\nnk 1061518219200\nhk 775396800\ncoeff0 40\ncoeff1 70\ncoeff2 70\nnqr 2\n" },
  { "d_r19_q103_h6", "d", 19, "type d\nq 103\nn 114\nh 6\nr 19\na 1\nb 18\nk 6\nnk 1194050113884\nhk 3307618044\ncoeff0 39\ncoeff1 87\ncoeff2 24\nnqr 3\n" },
  { "d_r61_q109_h2", "d", 61, "type d\nq 109\nn 122\nh 2\nr 61\na 1\nb 53\nk 6\nnk 1677097878484\nhk 450711604\ncoeff0 55\ncoeff1 58\ncoeff2 92\nnqr 2\n" },
  { "d_r43_q179_h4", "d", 43, "type d\nq 179\nn 172\nh 4\nr 43\na 1\nb 72\nk 6\nnk 32894110596944\nhk 17790216656\ncoeff0 130\ncoeff1 42\ncoeff2 7\nnqr 2\n" },
  { "d_r31_q181_h6", "d", 31, "type d\nq 181\nn 186\nh 6\nr 31\na 1\nb 6\nk 6\nnk 35161835742900\nhk 36588798900\ncoeff0 149\ncoeff1 170\ncoeff2 169\nnqr 2\n" },
  { "d_r61_q197_h3", "d", 61, "type d\nq 197\nn 183\nh 3\nr 61\na 1\nb 46\nk 6\nnk 58451713459776\nhk 15708603456\ncoeff0 164\ncoeff1 19\ncoeff2 78\nnqr 2\n" },
  { "d_r73_q211_h3", "d", 73, "type d\nq 211\nn 219\nh 3\nr 73\na 1\nb 41\nk 6\nnk 88245941708880\nhk 16559568720\ncoeff0 25\ncoeff1 147\ncoeff2 6\nnqr 2\n" },
  { "d_r37_q233_h6", "d", 37, "type d\nq 233\nn 222\nh 6\nr 37\na 1\nb 6\nk 6\nnk 160005707482644\nhk 116877799476\ncoeff0 167\ncoeff1 14\ncoeff2 61\nnqr 3\n" },
  { "d_r67_q239_h4", "d", 67, "type d\nq 239\nn 268\nh 4\nr 67\na 1\nb 73\nk 6\nnk 186374916167024\nhk 41518136816\ncoeff0 192\ncoeff1 187\ncoeff2 61\nnqr 7\n" },
  { "d_r79_q293_h4", "d", 79, "type d\nq 293\nn 316\nh 4\nr 79\na 1\nb 58\nk 6\nnk 632711466006464\nhk 101379821504\ncoeff0 176\ncoeff1 61\ncoeff2 57\nnqr 2\n" },
  { "d_r67_q373_h6", "d", 67, "type d\nq 373\nn 402\nh 6\nr 67\na 1\nb 3\nk 6\nnk 2693103184249524\nhk 599933879316\ncoeff0 87\ncoeff1 35\ncoeff2 13\nnqr 2\n" },
  { "g_r11_q7_h1", "g", 11, "type g\nq 7\nn 11\nh 1\nr 11\na 1\nb 6\nnk 282507775\nhk 2334775\ncoeff0 4\ncoeff1 4\ncoeff2 6\ncoeff3 3\ncoeff4 2\nnqr 3\n" },
  { "g_r11_q17_h2", "g", 11, "type g\nq 17\nn 22\nh 2\nr 11\na 2\nb 3\nnk 2015994879668\nhk 16661114708\ncoeff0 13\ncoeff1 5\ncoeff2 5\ncoeff3 6\ncoeff4 8\nnqr 3\n" },
  { "g_r31_q23_h1", "g", 31, "type g\nq 23\nn 31\nh 1\nr 31\na 5\nb 1\nnk 41426507087207\nhk 43107707687\ncoeff0 1\ncoeff1 12\ncoeff2 20\ncoeff3 18\ncoeff4 0\nnqr 5\n" },
  { "g_r31_q29_h1", "g", 31, "type g\nq 29\nn 31\nh 1\nr 31\na 4\nb 1\nnk 420707257830779\nhk 437780705339\ncoeff0 23\ncoeff1 2\ncoeff2 5\ncoeff3 21\ncoeff4 11\nnqr 2\n" },
  { "g_r41_q31_h1", "g", 41, "type g\nq 31\nn 41\nh 1\nr 41\na 1\nb 3\nnk 819628229727703\nhk 487583717863\ncoeff0 26\ncoeff1 18\ncoeff2 28\ncoeff3 26\ncoeff4 18\nnqr 3\n" },
  { "g_r41_q107_h3", "g", 41, "type g\nq 107\nn 123\nh 3\nr 41\na 1\nb 64\nnk 196715135721823186239\nhk 117022686330650319\ncoeff0 41\ncoeff1 72\ncoeff2 9\ncoeff3 45\ncoeff4 67\nnqr 2\n" },
  { "g_r101_q107_h1", "g", 101, "type g\nq 107\nn 101\nh 1\nr 101\na 2\nb 22\nnk 196715135702243610575\nhk 19283907038745575\ncoeff0 41\ncoeff1 72\ncoeff2 9\ncoeff3 45\ncoeff4 67\nnqr 2\n" },
  { "g_r61_q113_h2", "g", 61, "type g\nq 113\nn 122\nh 2\nr 61\na 1\nb 11\nnk 339456738964428972932\nhk 91227288085038692\ncoeff0 15\ncoeff1 8\ncoeff2 25\ncoeff3 51\ncoeff4 18\nnqr 3\n" },
  { "g_r71_q137_h2", "g", 71, "type g\nq 137\nn 142\nh 2\nr 71\na 1\nb 16\nnk 2329194047549316579668\nhk 462049999513849748\ncoeff0 20\ncoeff1 108\ncoeff2 14\ncoeff3 121\ncoeff4 7\nnqr 3\n" },
  { "g_r61_q163_h3", "g", 61, "type g\nq 163\nn 183\nh 3\nr 61\na 1\nb 23\nnk 13239635966900268713175\nhk 3558085452002222175\ncoeff0 2\ncoeff1 13\ncoeff2 7\ncoeff3 27\ncoeff4 154\nnqr 2\n" },
  { "g_r71_q227_h3", "g", 71, "type g\nq 227\nn 213\nh 3\nr 71\na 1\nb 171\nnk 363294289954686602617839\nhk 72067901201088395679\ncoeff0 145\ncoeff1 166\ncoeff2 47\ncoeff3 138\ncoeff4 36\nnqr 2\n" },
  { "g_r151_q283_h2", "g", 151, "type g\nq 283\nn 302\nh 2\nr 151\na 1\nb 55\nnk 3295067800666034416073932\nhk 144514179231877304332\ncoeff0 136\ncoeff1 229\ncoeff2 258\ncoeff3 222\ncoeff4 189\nnqr 2\n" },
  { "e_r5_q1201_2_1_pm", "e", 5, "type e\nq 1201\nr 5\nh 48\na 0\nb 1\nexp2 2\nexp1 1\nsign1 1\nsign0 -1\n" },
  { "e_r5_q4801_2_1_pm", "e", 5, "type e\nq 4801\nr 5\nh 192\na 0\nb 1\nexp2 2\nexp1 1\nsign1 1\nsign0 -1\n" },
  { "e_r7_q21169_2_1_pp", "e", 7, "type e\nq 21169\nr 7\nh 432\na 0\nb 1\nexp2 2\nexp1 1\nsign1 1\nsign0 1\n" },
  { "e_r7_q37633_2_1_pp", "e", 7, "type e\nq 37633\nr 7\nh 768\na 0\nb 1\nexp2 2\nexp1 1\nsign1 1\nsign0 1\n" },
  { "e_r11_q1453_3_1_pp", "e", 11, "type e\nq 1453\nr 11\nh 12\na 0\nb 1\nexp2 3\nexp1 1\nsign1 1\nsign0 1\n" },
  { "e_r13_q2029_3_2_pp", "e", 13, "type e\nq 2029\nr 13\nh 12\na 0\nb 1\nexp2 3\nexp1 2\nsign1 1\nsign0 1\n" },
  { "e_r13_q18253_3_2_pp", "e", 13, "type e\nq 18253\nr 13\nh 108\na 0\nb 1\nexp2 3\nexp1 2\nsign1 1\nsign0 1\n" },
  { "e_r5_q1201_3_2_mp", "e", 5, "type e\nq 1201\nr 5\nh 48\na 0\nb 1\nexp2 3\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "e_r5_q4801_3_2_mp", "e", 5, "type e\nq 4801\nr 5\nh 192\na 0\nb 1\nexp2 3\nexp1 2\nsign1 -1\nsign0 1\n" },
  { "e_r11_q1453_4_2_mm", "e", 11, "type e\nq 1453\nr 11\nh 12\na 0\nb 1\nexp2 4\nexp1 2\nsign1 -1\nsign0 -1\n" },
  { "f_r13_q19_b2_beta2", "f", 13, "type f\nq 19\nr 13\nb 2\nbeta 2\nalpha0 2\nalpha1 2\n" },
  { "f_r13_q19_b2_beta3", "f", 13, "type f\nq 19\nr 13\nb 2\nbeta 3\nalpha0 2\nalpha1 3\n" },
  { "f_r13_q19_b3_beta2", "f", 13, "type f\nq 19\nr 13\nb 3\nbeta 2\nalpha0 2\nalpha1 2\n" },
  { "f_r13_q19_b3_beta3", "f", 13, "type f\nq 19\nr 13\nb 3\nbeta 3\nalpha0 2\nalpha1 3\n" },
  { "f_r97_q103_b5_beta3", "f", 97, "type f\nq 103\nr 97\nb 5\nbeta 3\nalpha0 1\nalpha1 1\n" },
  { "f_r97_q103_b5_beta5", "f", 97, "type f\nq 103\nr 97\nb 5\nbeta 5\nalpha0 1\nalpha1 2\n" },
  { "f_r97_q103_b11_beta3", "f", 97, "type f\nq 103\nr 97\nb 11\nbeta 3\nalpha0 1\nalpha1 1\n" },
  { "f_r97_q103_b11_beta5", "f", 97, "type f\nq 103\nr 97\nb 11\nbeta 5\nalpha0 1\nalpha1 2\n" },
  { "f_r349_q373_b6_beta2", "f", 349, "type f\nq 373\nr 349\nb 6\nbeta 2\nalpha0 0\nalpha1 1\n" },
  { "f_r349_q373_b6_beta5", "f", 349, "type f\nq 373\nr 349\nb 6\nbeta 5\nalpha0 0\nalpha1 1\n" },
  { "f_r349_q373_b11_beta2", "f", 349, "type f\nq 373\nr 349\nb 11\nbeta 2\nalpha0 0\nalpha1 1\n" },
  { "f_r349_q373_b11_beta5", "f", 349, "type f\nq 373\nr 349\nb 11\nbeta 5\nalpha0 0\nalpha1 1\n" },
};
#define NTOYS (int)(sizeof(toys)/sizeof(toys[0]))
// composite order n = p1 p2 with the factors known
static const struct { const char *name, *p1, *p2, *text; } bgns[] = {
  { "bgn40", "1099511640127", "1649267442467", "type a1\np 87042660032397781491518831\nn 1813388750674953781073309\nl 48\n" },
  { "bgn80", "1208925819614629174718579", "1813388729421943762060051", "type a1\np 35076039295941670037263522145687705778003574200463\nn 2192252455996354377328970134105481611125223387529\nl 16\n" },
  { "bgn130", "1361129467683753853853498429727072858199", "2041694201525630780780247644590609269743", "type a1\np 833703042508676607049711092062552944534530824943778373979905861020160154051857099\nn 2779010141695588690165703640208509815115102749812594579933019536733867180172857\nl 300\n" },
};
#define NBGN 3
#endif
